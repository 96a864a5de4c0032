"""C14: stateful stream operators (StrmTrace.tla)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from strmlib import *

if __name__ == '__main__':
    sys.exit(check("C14", True, (240, 3000)))
