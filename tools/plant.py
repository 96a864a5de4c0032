"""Create and confirm one planted bug.

usage: plant.py SPEC.py      (SPEC defines ID, PID, EDITS, NEEDS, BREAKS, DEMO)
       plant.py --recheck ID...   re-confirm existing seeded/<id> against /repo HEAD
A scratch clone of /repo is used; /repo itself is never touched."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SIM = '''"""Helper of the demonstration: run Verilog text in a scratch directory."""
import os, shutil, subprocess, tempfile


def sim(*texts, **kw):
    top = kw.get('top', 'tb')
    d = tempfile.mkdtemp(prefix='demo_')
    try:
        fs = []
        for i, t in enumerate(texts):
            fs.append(os.path.join(d, 's%d.v' % i))
            with open(fs[-1], 'w') as f:
                f.write(t)
        o = os.path.join(d, 'a.out')
        subprocess.run(['iverilog', '-g2005', '-s', top, '-o', o] + fs, check=True, cwd=d)
        r = subprocess.run(['vvp', '-N', o], cwd=d, stdout=subprocess.PIPE, universal_newlines=True,
                           timeout=200)
        return [l for l in r.stdout.splitlines() if '$finish' not in l]
    finally:
        shutil.rmtree(d, True)


CLKRST = """
  reg CLK, RST;
  initial begin CLK = 0; forever #5 CLK = !CLK; end
  initial begin RST = 0; #13 RST = 1; #40 RST = 0; end
"""
'''
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def main():
    args = sys.argv[1:]
    if args[0] == '--recheck':
        rc = 0
        for i in args[1:] or sorted(os.listdir(VERIF + '/seeded')):
            r = confirm(VERIF + '/seeded/' + i, None, suite=False)
            print(i, 'OK' if r else 'FAILED')
            rc |= not r
        return rc
    g = {}
    exec(open(args[0]).read(), g)
    d = os.path.join(VERIF, 'seeded', g['ID'])
    os.makedirs(d, exist_ok=True)
    with open(d + '/meta.json', 'w') as f:
        json.dump(dict(property=g['PID'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), f, indent=1)
    for n, t in (('demo.sh', SH), ('demo.py', g['DEMO']), ('dsim.py', SIM)):
        with open(d + '/' + n, 'w') as f:
            f.write(t)
    os.chmod(d + '/demo.sh', 0o755)
    ok = confirm(d, g['EDITS'], suite='--nosuite' not in args)
    print('CONFIRMED' if ok else 'NOT CONFIRMED', g['ID'])
    if not ok:
        os.path.exists(d + '/patch.diff') and os.rename(d + '/patch.diff', '/tmp/bad_%s.diff' % g['ID'])
        shutil.rmtree(d)
    return 0 if ok else 1


def confirm(d, edits, suite=True):
    top = tempfile.mkdtemp(prefix='plant_')
    wt = top + '/repo'
    try:
        sh('git clone -q /repo %s' % wt)
        r = sh('bash %s/demo.sh' % d, cwd=wt, timeout=300)
        if r.returncode != 0:
            print('demo fails on the clean tree:\n' + r.stdout[-3000:])
            return False
        if edits is not None:
            for fn, old, new in edits:
                p = os.path.join(wt, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print('edit of %s: %d matches' % (fn, s.count(old)))
                    return False
                open(p, 'w').write(s.replace(old, new))
            with open(d + '/patch.diff', 'w') as f:
                f.write(subprocess.run(['git', 'diff'], cwd=wt, stdout=subprocess.PIPE,
                                       universal_newlines=True).stdout)
        else:
            r = sh('git apply %s/patch.diff' % d, cwd=wt)
            if r.returncode != 0:
                print('patch does not apply: ' + r.stdout)
                return False
        r = sh('bash %s/demo.sh' % d, cwd=wt, timeout=300)
        if r.returncode == 0:
            print('demo passes with the change')
            return False
        print('demo with the change: ' + r.stdout.strip()[-900:])
        if suite:
            os.mkdir(top + '/cwd')
            r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --timeout=300 -n 8 '
                   '-c %s/pytest.ini --rootdir=%s %s 2>&1 | grep -v Warning | tail -12' % (
                       wt, wt, ' '.join(wt + '/' + x for x in (
                           'tests', 'examples', 'tests_obsolete', 'examples_obsolete'))),
                   cwd=top + '/cwd', timeout=900,
                   env=dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                            PATH='/opt/venv/bin:' + os.environ['PATH']))
            print(r.stdout.strip()[-900:])
            if 'passed' not in r.stdout or 'failed' in r.stdout or 'error' in r.stdout:
                return False
        return True
    finally:
        shutil.rmtree(top, True)


sys.exit(main())
