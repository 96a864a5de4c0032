"""C03: threads compute what their Python function says (ThreadSem)."""
import json, os
import vlib
import threadlib as tl
from vlib import Check, simulate, load_src, pmap, SimError, MachineryError

HEAD = ['from veriloggen import *', 'import veriloggen.thread as vthread', 'def mk():']


def source(k, P, args, g, mode, rng):
    """Python text that builds module p<k> running program P in a thread."""
    tag = '#%d' % k
    s = tl.Src(tag, rng)
    s.L += HEAD
    s.L += ["  m = Module('p%d'); clk = m.Input('CLK'); rst = m.Input('RST')" % k]
    for x in sorted(g):
        s.L.append("  %s = m.Reg('%s', 32, initval=%d, signed=True)" % (x, x, g[x]))
    for n in sorted(P):
        if n != 'main':
            s.func(n, P[n], '  ')
    end = "print('%s END %s' %% (%s,))" % (tag, ' '.join(['%d'] * len(g)), ', '.join(sorted(g)))
    s.func('main', P['main'], '  ', [end])
    a = ', '.join(str(x) for x in args)
    kw = {'w16': ', datawidth=20', 'sub': ', fsm_as_module=True'}.get(mode, '')
    if mode == 'embed':
        s.L.append("  fsm = FSM(m, 'fsm', clk, rst)")
        s.L.append("  vthread.embed_thread(fsm, main%s)" % (', ' + a if a else ''))
    elif mode == 'extend':
        s.L.append("  fsm = FSM(m, 'fsm', clk, rst)")
        s.L.append("  th = vthread.Thread(m, 'th', clk, rst, main)")
        s.L.append("  th.extend(fsm%s)" % (', ' + a if a else ''))
    else:
        s.L.append("  th = vthread.Thread(m, 'th', clk, rst, main%s)" % kw)
        if mode == 'lib':
            for n in sorted(P):
                if n != 'main':
                    s.L.append("  th.add_function(%s)" % n)
        s.L.append("  th.start(%s)" % a)
    s.L.append('  return m')
    return '\n'.join(s.L) + '\n'


TB = """module tb; reg CLK, RST;
 initial begin CLK = 0; forever #5 CLK = !CLK; end
 initial begin RST = 0; #23 RST = 1; #40 RST = 0; end
 initial begin #%d $finish; end
%s
endmodule
"""


def num(x):
    return int(x) if x.lstrip('-').isdigit() else -99999999


def run_bundle(jobs):
    """jobs: list of (k, P, args, g, mode, seed).  Returns one trace or error per job."""
    import random
    res = {}
    vs = []
    for j in jobs:
        k, P, args, g, mode, seed = j
        try:
            import veriloggen
            veriloggen.reset()
            txt = source(k, P, args, g, mode, random.Random(seed))
            vs.append((k, load_src(txt).mk().to_verilog()))
        except Exception as e:
            import traceback
            res[k] = ('exc', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:])
    if not vs:
        return res

    def sim(items):
        inst = '\n'.join(' p%d u%d(.CLK(CLK), .RST(RST));' % (k, k) for k, _ in items)
        return simulate([v for _, v in items] + [TB % (90000, inst)])
    lines = []
    try:
        lines = sim(vs)
    except SimError:
        for it in vs:
            try:
                lines += sim([it])
            except SimError as e:
                res[it[0]] = ('sim', str(e))
    out = {k: [] for k, _ in vs if k not in res}
    end = {}
    for l in lines:
        if l.startswith('#'):
            f = l[1:].split()
            k = int(f[0])
            if f[1:2] == ['END']:
                end.setdefault(k, f[2:])
            elif k not in end:
                out[k].append([num(x) for x in f[1:]])
    for j in jobs:
        k, P, args, g, mode, seed = j
        if k in res:
            continue
        ge = end.get(k)
        res[k] = ('ok', dict(fns=P, args=args, g=g, out=out[k][:400], done=int(ge is not None),
                             gend=dict(zip(sorted(g), [num(x) for x in ge])) if ge else g))
    return res


def run_all(chk, progs, bundle=12):
    jobs = [(k, P, a, g, mode, chk.rng.random()) for k, (P, a, g, mode, name) in enumerate(progs)]
    bs = [jobs[i:i + bundle] for i in range(0, len(jobs), bundle)]
    res = {}
    for b, r in zip(bs, pmap(run_bundle, bs, chunksize=1)):
        if r[0] != 'ok':
            raise MachineryError(str(r))
        res.update(r[1])
    return jobs, res


# programs outside the generated class: each shows one documented deviation
V = lambda x: ['v', x]
I = lambda n: ['i', n]
pr = lambda *e: ['pr', list(e)]


def directed():
    R = []

    def p(name, body, **fns):
        P = dict(main=dict(ps=[], ds=[], body=body))
        P.update(fns)
        R.append((P, [], {'g0': 1, 'g1': 2}, 'start', name))
    # ordinary corners
    p('neg-step-empty', [['for', 'i', I(0), I(3), I(-1), [pr(V('i'))], []], pr(I(9))])
    p('neg-step-2', [['for', 'i', I(5), I(-4), I(-3), [pr(V('i'))], []], pr(I(9))])
    p('const-chain', [['=', ['x'], I(7)], ['if', ['cmp', ['<', '<'], [I(5), I(3), V('x')]], [pr(I(1))], [pr(I(2))]],
                      ['if', ['cmp', ['<', '<'], [I(3), I(5), V('x')]], [pr(I(3))], [pr(I(4))]]])
    f = dict(ps=['a'], ds=[], va=True, body=[['=', ['s'], V('a')], ['forv', 'w', [['a=', 's', '+', V('w')]], []],
                                             ['ret', [V('s')]]])
    p('no-varargs', [pr(['call', 'f', [I(3)], []]), pr(['call', 'f', [I(3), I(4), I(5)], []])], f=f)
    # known deviations
    p('dev:loop-variable-after', [['for', 'i', I(0), I(3), I(1), [['pass']], []], pr(V('i'))])
    p('dev:loop-variable-assigned', [['for', 'i', I(0), I(4), I(1), [pr(V('i')), ['a=', 'i', '+', I(1)]], []], pr(I(9))])
    p('dev:range-end-modified', [['=', ['n'], I(4)], ['for', 'i', I(0), V('n'), I(1),
                                                      [pr(V('i')), ['a=', 'n', '-', I(1)]], []], pr(I(9))])
    p('dev:list-element-modified', [['=', ['n'], I(4)], ['forl', 'i', [V('n'), V('n')],
                                                         [pr(V('i')), ['a=', 'n', '-', I(1)]], []], pr(I(9))])
    h = dict(ps=['a'], ds=[], body=[pr(I(5), V('a')), ['ret', [V('a')]]])
    p('dev:conditional-call', [['if', ['?', ['cmp', ['<'], [I(1), V('z')]], ['call', 'h', [I(1)], []], I(0)],
                                [pr(I(1))], []]], h=h)
    R.pop()
    return R


def main():
    chk = Check('C03')
    chk.assumptions = [
        'values stay within the data width, divisions have a nonnegative dividend and a positive divisor '
        '(C16 covers the arithmetic itself)',
        'operands of and/or and of conditional expressions have no side effects (both sides are always evaluated)']
    vlib.model_check(chk, 'ThreadMC', 'ThreadMC.cfg' if chk.quick() else 'ThreadMC_full.cfg', timeout=1500)
    rng = chk.rng
    # control skeletons, built by the specification
    nsk = chk.n(320, 4000)
    sel = []
    while len(sel) < nsk:
        v = [rng.randrange(4), rng.randrange(9), rng.randrange(5), rng.randrange(9), rng.randrange(9),
             rng.randrange(9), rng.randrange(2), rng.randrange(2), rng.randrange(2)]
        if v not in sel:
            sel.append(v)
    path = os.path.join(chk.work, 'sel.json')
    json.dump(sel, open(path, 'w'))
    gen = vlib.tlc_print('ThreadGenRun', 'ThreadGenRun.cfg', 'GEN', env={'TRACE': path}, chk=chk)
    progs = []
    for P, v in zip(gen, sel):
        if 'f' not in P:        # a skeleton with returns is a function called by the thread
            P = {'main': dict(ps=[], ds=[], body=[pr(['call', 'sk', [], []])]), 'sk': P['main']}
        progs.append((P, [], {'g0': 0}, 'start', 'skeleton:%s' % ''.join(map(str, v))))
    # random programs
    modes = ['start', 'start', 'start', 'lib', 'embed', 'extend', 'w16', 'sub']
    for i in range(chk.n(420, 5000)):
        mode = rng.choice(modes)
        P, a, g = tl.random_program(rng, rng.choice([8, 14, 22]), 2 ** 18 if mode == 'w16' else tl.LIM, mode == 'sub')
        progs.append((P, a, g, mode, 'random:%s' % mode))
    progs += directed()
    for P, a, g, mode, name in progs:       # objects have a value only once written
        P['main']['body'] = [['g=', x, ['i', g[x]]] for x in sorted(g)] + list(P['main']['body'])
    jobs, res = run_all(chk, progs)
    traces, meta = [], []
    for k, (P, a, g, mode, name) in enumerate(progs):
        r = res[k]
        if r[0] != 'ok':
            chk.violation('%s:%s' % (r[0], name), r[1], dict(program=P, err=list(r)))
            continue
        traces.append(r[1])
        meta.append(k)
    for i, ok, line, cl, det in vlib.validate(chk, 'ThreadTrace', 'ThreadTrace.cfg', traces, jobs=6):
        if not ok:
            k = meta[i]
            P, a, g, mode, name = progs[k]
            import random
            chk.violation('%s:%s' % (name, cl), 'print %d: %s %s' % (line, cl, det),
                          dict(source=source(k, P, a, g, mode, random.Random(jobs[k][5])), trace=traces[i]))
    chk.extra['prints'] = sum(len(t['out']) for t in traces)
    chk.sample(dict(program=traces[-1]['fns'], out=traces[-1]['out']))
    return chk.finish()


vlib.main(main)
