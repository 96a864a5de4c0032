"""C20: emission is deterministic and does not disturb the design.  Random sessions
of building, extending, emitting, inspecting, simulating and resetting, in processes
with different hash seeds, against Emit.tla."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import glob, random

# designs whose deferred objects take session-wide numbers when they are emitted
NUMBERED = ('str', 'pst2', 'dfl', 'ful', 'dma')
STAGES = dict(seq=3, fsm=3, thr=2, dma=2, str=2, pst=1, pst2=1, dfl=2, dft=1, pip=2, fix=2, per=2, mem=1, hie=3, ver=2, big=2, ful=1)


# ---------------------------------------------------------------------------------
# worker: one process of a session
# ---------------------------------------------------------------------------------
def normal(t):
    """names of files that are chosen anew for every build are not part of the text"""
    t = re.sub(r'"[^"\n]*/', '"', t)
    return re.sub(r'(waveform_|memimg_)[A-Za-z0-9_]+(\.vcd|\.out)', r'\1\2', t)


def worker():
    import io, contextlib, importlib.util
    import veriloggen as vg
    from veriloggen.simulation import simulation
    ops = json.load(sys.stdin)
    os.makedirs('w%d' % os.getpid())
    os.chdir('w%d' % os.getpid())
    hs, out = [], []
    real = sys.stdout

    def build(d):
        class C(object):
            pass
        c = C()
        if d.startswith('/'):
            name = 'corpus_' + hashlib.md5(d.encode()).hexdigest()
            mod = sys.modules.get(name)
            if mod is None:
                sp = importlib.util.spec_from_file_location(name, d)
                mod = importlib.util.module_from_spec(sp)
                sys.modules[name] = mod
                sp.loader.exec_module(mod)
            c.m = mod.mkTest()
        else:
            import emitlib
            c.st = emitlib.DESIGNS[d]
            c.st[0](c)
        return c

    def inspect(m, how):
        if how == 0:
            m.get_ports(), m.get_params(), m.get_localparams(), m.get_vars(), m.get_modules()
            m.find_module('nosuch'), m.find_identifier('nosuch'), m.is_reg('CLK'), str(m), repr(m)
        elif how == 1:
            x = vg.Module('copy_of_interface')
            x.copy_params(m)
            x.copy_ports(m)
            if 'CLK' in m.get_ports():
                x.copy_vars(m)
            x.to_verilog()
        elif how == 2:
            x = vg.Module('wrapper')
            x.copy_params_as_localparams(m)
            p = x.copy_sim_ports(m)
            x.Instance(m, 'uut', params=x.connect_params(m), ports=x.connect_ports(m))
            x.to_verilog()
        elif how == 3:
            m.to_verilog(filename='out.v')
        else:
            import copy
            copy.deepcopy(m).to_verilog()

    def sim(m):
        t = vg.Module('bench')
        params = t.copy_params(m)
        ports = t.copy_sim_ports(m)
        t.Instance(m, 'uut', params=t.connect_params(m), ports=t.connect_ports(m))
        if 'CLK' in ports:
            simulation.setup_clock(t, ports['CLK'])
        if 'RST' in ports:
            simulation.setup_reset(t, ports['RST'], t.make_reset(), period=20)
        t.Initial(vg.Delay(200), vg.Finish())
        simulation.Simulator(t).run()

    with contextlib.redirect_stdout(io.StringIO()):
        for o in ops:
            if o[0] == 'reset':
                vg.reset()
            elif o[0] == 'build':
                hs.append(build(o[1]))
            elif o[0] == 'extend':
                hs[o[1]].st[o[2]](hs[o[1]])
            elif o[0] == 'emit':
                t = normal(hs[o[1]].m.to_verilog())
                h = hashlib.md5(t.encode()).hexdigest()
                if os.environ.get('KEEP_TEXT'):
                    open(os.path.join(os.environ['KEEP_TEXT'], h + '.v'), 'w').write(t)
                out.append(h)
            elif o[0] == 'sim':
                sim(hs[o[1]].m)
            else:
                inspect(hs[o[1]].m, o[2])
    print('\nRESULT ' + json.dumps(out), file=real)


# ---------------------------------------------------------------------------------
def script(rng, names):
    """the construction steps of a session"""
    acts, built = [], []
    for _ in range(rng.randrange(2, 5)):
        d = rng.choice(names)
        acts.append(('build', d))
        built.append([len(built), d, 1])
        while rng.random() < .6:
            b = rng.choice(built)
            if not b[1].startswith('/') and b[2] < STAGES[b[1]]:
                acts.append(('extend', b[0], b[2]))
                b[2] += 1
    for b in built:
        if not b[1].startswith('/') and rng.random() < .5 and b[2] < STAGES[b[1]]:
            acts.append(('extend', b[0], b[2]))
            b[2] += 1
    return acts


def spread(rng, acts, base, noisy):
    """operations of one epoch: the construction steps with others in between"""
    ops, n, names = [], base, {}
    for a in acts:
        if a[0] == 'build':
            names[n] = a[1]
            ops.append(list(a))
            n += 1
        else:
            ops.append(['extend', a[1] + base, a[2]])
        while noisy and rng.random() < .5:
            h = rng.randrange(base, n) if rng.random() < .8 else rng.randrange(n)
            c = rng.random()
            if c < .5:
                ops.append(['emit', h])
            elif c < .9 or names.get(h, '/').startswith('/'):
                ops.append(['inspect', h, rng.randrange(5)])
            else:
                ops.append(['sim', h])
    hs = list(range(base, n))
    rng.shuffle(hs)
    for h in hs:
        ops.append(['emit', h])
        if noisy and rng.random() < .3:
            ops.append(['emit', h])
    return ops, n


def gen(rng, corpus, full):
    names = sorted(STAGES) if full else sorted(STAGES) + rng.sample(corpus, min(3, len(corpus)))
    if full:
        names = rng.sample(corpus, 4)
    acts = script(rng, names)
    procs = []
    for p in range(3):
        ops, base = [], 0
        for ep in range(rng.choice((1, 2, 2)) if p else 1):
            if base:
                ops.append(['reset'])
            o, base = spread(rng, acts, base, p > 0)
            ops += o
        if p and rng.random() < .5:
            ops.append(['emit', rng.randrange(base)])
        procs.append((rng.randrange(1000), ops))
    return procs


def run(procs):
    ev = []
    for seed, ops in procs:
        env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=REPO)
        r = subprocess.run([sys.executable, os.path.abspath(__file__), '--worker'], input=json.dumps(ops), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=600)
        m = re.search(r'^RESULT (.*)$', r.stdout, re.M)
        if r.returncode or not m:
            raise RuntimeError('session failed: ' + r.stderr[-1500:])
        texts = iter(json.loads(m.group(1)))
        ev.append(['process'])
        names, fresh = [], []
        for o in ops:
            if o[0] == 'build':
                names.append(o[1])
                fresh.append(True)
                d = o[1] if not o[1].startswith('/') else o[1][len(REPO):]
                ev.append(['build', d, int(o[1] in NUMBERED or o[1].startswith('/'))])
            elif o[0] == 'extend':
                ev.append(['extend', o[1] + 1, o[2]])
            elif o[0] == 'emit':
                ev.append(['emit', o[1] + 1, next(texts)])
            else:
                # copies and enclosing designs take numbers of their own
                ev.append(['touch', o[1] + 1, '%s %d' % (o[0], (o + [0])[2])] if len(o) > 1 else [o[0]])
    return ev


def main():
    chk = Check('C20')
    model_check(chk, 'EmitMC', 'EmitMC.cfg' if chk.quick() else 'EmitMC_full.cfg')
    corpus = sorted(f for d in ('tests', 'examples') for f in glob.glob(REPO + '/' + d + '/**/*.py', recursive=True)
                    if not os.path.basename(f).startswith('test_') and re.search(r'^def mkTest\((\w+=[^,()]*)?\):', open(f).read(), re.M))
    N = chk.n(48, 700)
    D = [gen(chk.rng, corpus, k % 4 == 3 and len(corpus) > 8) for k in range(N)]
    T, I = [], []
    for d, r in zip(D, pmap(run, D, chunksize=1)):
        if r[0] != 'ok':
            chk.violation(r[0] + ':', r[1], dict(session=d, error=r[1:]))
        else:
            T.append(r[1])
            I.append(d)
    for (i, ok, line, clause, det) in validate(chk, 'EmitTrace', 'EmitTrace.cfg', T, jobs=4):
        if not ok:
            e = T[i][line - 1]
            chk.violation('%s:%s' % (clause, det.split('"')[1] if '"' in det else ''), 'event %d: %s %s' % (line, e, det), dict(session=I[i], events=T[i][:line]))
    chk.extra.update(sessions=N, corpus=len(corpus), emissions=sum(e[0] == 'emit' for t in T for e in t))
    chk.sample(T[0][:12])
    chk.assumptions = ['file names chosen by the operating system for each build are ignored',
                       'the first emission of a design with deferred streams takes session-wide numbers like a construction step',
                       'a design built before a reset is not extended after it']
    return chk.finish()


if __name__ == '__main__':
    if sys.argv[1:] == ['--worker']:
        worker()
    else:
        sys.exit(main())
