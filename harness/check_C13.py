"""C13: thread-controlled streams apply their graph to every element (StrmTrace.tla)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from strmlib import *

if __name__ == '__main__':
    sys.exit(check('C13', False, (160, 3000)))
