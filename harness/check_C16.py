"""C16: expressions.  Random and enumerated trees are built with the real operators,
the emitted Verilog is simulated, and every value is checked against VExpr."""
import vlib
from vlib import Check, drive, pmap
import random
from veriloggen import *
import veriloggen.core.vtypes as vt
from veriloggen.optimizer import try_optimize
from exprlib import *

NV = 5


def opt_expr(g, d, nosign=False):
    """a tree over integers and variables in the optimiser's subset.  Comparisons stand
    only where a truth value is wanted, and a constant operand of % and >> or a
    dividend of / is not negative (see opt_known)."""
    r = g.rng
    if d == 0:
        if r.random() < 0.45:
            ks = [k for k, v in enumerate(g.vars) if not (nosign and v[2])]
            if ks:
                return g.var(r.choice(ks))
        v = r.choice([0, 1, 2, 3, 4, 7, 8, 15, 64, r.randrange(0, 60)])
        c = r.random()
        if c < 0.1:
            w = r.choice([6, 7, 8, 33])
            v %= 2 ** w
            return K(v, w, 0), vt.Int(v, width=w, base=r.choice([None, 16]))
        return K(v), (v if c < 0.5 else vt.Int(v))
    op = r.choice(['+', '+', '-', '-', '*', '*', '*', '/', '%', '<<', '>>', '&', '|', '^', '**', 'u-', 'u~'])
    if nosign:
        op = r.choice(['+', '*', '/', '%', '&', '|', '^', '<<', '>>'])
    if op in F1:
        t, o = opt_expr(g, d - 1)
        return [op, t], F1[op](o)
    ns = nosign or op in ('/', '%', '>>')
    a = opt_expr(g, d - 1, ns)
    b = opt_expr(g, d - 1, ns)
    if op in ('<<', '>>', '**'):
        n = r.randrange(0, 4)
        b = K(n), n
    return [op, a[0], b[0]], F2[op](a[1], b[1])


def opt_bool(g, d):
    r = g.rng
    if d == 0 or r.random() < 0.3:
        if r.random() < 0.6:
            a, b = opt_expr(g, r.choice([0, 1])), opt_expr(g, 0)
            op = r.choice(CMP)
            return [op, a[0], b[0]], F2[op](a[1], b[1])
        return opt_expr(g, 0)
    op = r.choice(['&&', '||', 'u!'])
    a = opt_bool(g, d - 1)
    if op == 'u!':
        return [op, a[0]], vt.Ulnot(a[1])
    b = opt_bool(g, d - 1)
    return [op, a[0], b[0]], F2[op](a[1], b[1])


def opt_known(a):
    """the deviations of the optimiser listed as known findings, checked on every run"""
    m = Module('top')
    x = m.Input('x0', 32, signed=True)
    v = ['v', 1]
    cases = [('opt-known:signed-div-pow2', ['/', v, K(4)], vt.Divide(x, 4)),
             ('opt-known:negative-mod-const', ['+', v, ['%', K(-7), K(3)]], vt.Plus(x, vt.Mod(-7, 3))),
             ('opt-known:negative-srl-const', ['+', v, ['>>', K(-8), K(1)]], vt.Plus(x, vt.Srl(-8, 1))),
             ('opt-known:comparison-sign', ['>', ['+', v, ['==', K(1), K(2)]], K(5)],
              vt.GreaterThan(vt.Plus(x, vt.Eq(1, 2)), 5))]
    outs, trees = [], []
    for n, (key, t, o) in enumerate(cases):
        out = m.Output('o%d' % n, 32)
        out.assign(try_optimize(o))
        outs.append((out.name, 32))
        trees.append((key, t, 32))
    stim = [[0], [1], [2 ** 32 - 5], [2 ** 31], [7], [2 ** 32 - 1]]
    rows = drive(m.to_verilog(), 'top', [('x0', 32)], outs, stim, clk=None, flags=['-gstrict-expr-width'])
    return traces_of([('x0', 32)], outs, trees, [(x, 32, True)], stim, rows)


def build(a):
    seed, n, nrow = a[:3]
    only = a[3] if len(a) > 3 else None
    rng = random.Random(seed)
    m = Module('top')
    vs, ins = [], []
    for k in range(NV):
        w = rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 33, 40])
        s = rng.random() < 0.45
        x = m.Input('x%d' % k, w, signed=s)
        vs.append((x, w, s))
        ins.append(('x%d' % k, w))
    g = Gen(rng, vs)
    ws = [w for _, w, _ in vs]
    outs, trees = [], []
    for k in range(n):
        if rng.random() < 0.25:
            t, o = (opt_expr if rng.random() < 0.65 else opt_bool)(g, rng.choice([1, 2, 3]))
            kind = 'opt'
        else:
            while True:
                t, o = g.expr(rng.choice([1, 2, 2, 3, 3, 4]))
                if size(t) < 40 and sound(t, ws):
                    break
            kind = 'expr'
        ww = width(t, ws)
        lw = rng.choice([ww, ww, ww + 3 if ww < 60 else ww, max(1, ww - 2), 1, 8])
        if only is not None and k != only:
            continue
        out = m.Output('o%d' % k, lw, signed=rng.random() < 0.3)
        if kind == 'opt':
            o = try_optimize(o)
        out.assign(o)
        outs.append((out.name, lw))
        trees.append((kind, t, lw))
    stim = []
    for _ in range(nrow):
        row = []
        for _, w in ins:
            c = rng.random()
            row.append(rng.randrange(2 ** w) if c < 0.6 else
                       rng.choice([0, 1, 2 ** w - 1, 2 ** (w - 1), 2 ** (w - 1) - 1, 2, 3]) % 2 ** w)
        stim.append(row)
    return m.to_verilog(), ins, outs, trees, vs, stim


def run(a):
    v, ins, outs, trees, vs, stim = build(a)
    rows = drive(v, 'top', ins, outs, stim, clk=None, flags=['-gstrict-expr-width'])
    tr = traces_of(ins, outs, trees, vs, stim, rows)
    for (name, _), (_, t) in zip(outs, tr):
        t['src'] = [l.strip() for l in v.splitlines() if l.strip().startswith('assign %s =' % name)][:1]
    return tr


def traces_of(ins, outs, trees, vs, stim, rows):
    tr = []
    for j, ((kind, t, lw), (name, _)) in enumerate(zip(trees, outs)):
        ev = []
        for s, r in zip(stim, rows):
            ev.append(dict(b=[bits(x, w) for x, (_, w) in zip(s, ins)],
                           o=[-1] if r[j] is None else bits(r[j], lw)))
        tr.append((kind, dict(e=t, lw=lw, w=[w for _, w, _ in vs], s=[int(s) for _, _, s in vs],
                              d=[0] * len(vs), ev=ev)))
    return tr


def enum(a):
    """every operator directly under every operator, on either side, at small widths"""
    part, nparts, seed = a
    rng = random.Random(seed)
    m = Module('top')
    vs, ins = [], []
    for k in range(6):
        w, s = (2, k >= 3)
        x = m.Input('x%d' % k, w, signed=s)
        vs.append((x, w, s))
        ins.append(('x%d' % k, w))
    two = ['+', '-', '*', '/', '%', '&', '|', '^', '~^', '<<', '>>', '>>>', '**', '<', '<=', '>',
           '>=', '==', '!=', '===', '!==', '&&', '||', '?']
    one = ['u-', 'u~', 'u!', 'r&', 'r~&', 'r|', 'r~|', 'r^', 'r~^']

    def mk(op, args):
        if op in one:
            return [op, args[0][0]], F1[op](args[0][1])
        if op == '?':
            return ['?', args[0][0], args[1][0], args[0][0]], Cond(args[0][1], args[1][1], args[0][1])
        f = PY2.get(op, F2[op])
        return [op, args[0][0], args[1][0]], f(args[0][1], args[1][1])

    cases = []
    for o1 in two + one:
        for o2 in two + one:
            for side in ((0, 1, 2) if o1 in two else (0,)):
                if o1 == '**' and side in (1, 2):
                    continue
                cases.append((o1, o2, side))
    outs, trees = [], []
    for n, (o1, o2, side) in enumerate(cases):
        if n % nparts != part:
            continue
        vv = [(['v', k + 1], vs[k][0]) for k in rng.choice([(0, 1, 2), (3, 4, 5), (0, 4, 2), (3, 1, 5)])]
        inner = mk(o2, [vv[0], vv[1]])
        if side == 0:
            t, o = mk(o1, [inner, vv[2]])
        elif side == 1:
            t, o = mk(o1, [vv[2], inner])
        else:
            t, o = mk(o1, [inner, mk(rng.choice(two[:-1]), [vv[1], vv[2]])])
        lw = rng.choice([1, 2, 4])
        out = m.Output('o%d' % n, lw)
        out.assign(o)
        outs.append((out.name, lw))
        trees.append(('enum', t, lw))
    # all values of three operands
    stim = [[x & 3, (x >> 2) & 3, (x >> 4) & 3] * 2 for x in range(64)]
    rows = drive(m.to_verilog(), 'top', ins, outs, stim, clk=None, flags=['-gstrict-expr-width'])
    return traces_of(ins, outs, trees, vs, stim, rows)


def sels(a):
    """every spelling of every bit, part and strided select of a 6-bit and a 5-bit signed variable"""
    m = Module('top')
    vs, ins, outs, trees = [], [], [], []
    for k, (w, s) in enumerate([(6, False), (5, True)]):
        x = m.Input('x%d' % k, w, signed=s)
        vs.append((x, w, s))
        ins.append(('x%d' % k, w))
    def add(t, o):
        lw = 8
        out = m.Output('o%d' % len(outs), lw)
        out.assign(o)
        outs.append((out.name, lw))
        trees.append(('select', t, lw))
    for k, (x, w, s) in enumerate(vs):
        v = k + 1
        bits_ = lambda idx: ['cat', [['bit', v, K(i)] for i in idx]]
        for i in range(w):
            for o in (x[i], x[i - w], x[vt.Int(i)], vt.Pointer(x, i), vt.Slice(x, i, i), x[i:i + 1]):
                add(['bit', v, K(i)], o)
        add(bits_(range(w)), vt.Cat(*[b for b in x]))
        add(bits_(list(range(w - 1, -1, -1)) * 2), x.repeat(2) if w < 5 else vt.Repeat(x, 2))
        for lo in range(w):
            for hi in range(lo + 1, w + 1):
                ra = [lo, lo - w] + ([None] if lo == 0 else [])
                rb = [hi - w] if hi < w else [None]
                for f in ra:
                    for g in rb + [hi]:
                        add(['sl', v, hi - 1, lo], x[f:g])
                        for st in (2, 3):
                            add(bits_(reversed(range(lo, hi, st))), x[f:g:st])
                add(['sl', v, hi - 1, lo], x.slice(hi - 1, lo))
                add(['sl', v, hi - 1, lo], x[vt.Int(lo):vt.Int(hi)])
    stim = [[1, 30], [2, 29], [4, 27], [8, 23], [16, 15], [32, 1], [0x2d, 2], [0x15, 4]]
    rows = drive(m.to_verilog(), 'top', ins, outs, stim, clk=None, flags=['-gstrict-expr-width'])
    return traces_of(ins, outs, trees, vs, stim, rows)


def hexv(t, line, det):
    f = lambda b: '%x' % sum(x << i for i, x in enumerate(b))
    return 'operands %s got %s expected %s lw=%d' % (
        ['%s:%d%s' % (f(b), w, 's' if s else '') for b, w, s in zip(t['ev'][line - 1]['b'], t['w'], t['s'])],
        f(t['ev'][line - 1]['o']), f([int(x) for x in det.split('>>')[0] if x in '01']), t['lw'])


def main():
    chk = Check('C16')
    chk.assumptions = ['iverilog implements the IEEE-1364 expression rules',
                       'values the standard leaves unspecified (division by zero, select out of range) are not compared']
    vlib.model_check(chk, 'BVMC', 'BVMC.cfg')
    rng = chk.rng
    jobs = [(rng.randrange(2 ** 40), 40, chk.n(8, 24)) for _ in range(chk.n(32, 400))]
    traces, meta = [], []
    redo = []
    for a, r in zip(jobs, pmap(run, jobs)):
        if r[0] == 'ok':
            for k, t in r[1]:
                traces.append(t)
                meta.append(k)
        else:
            redo += [a + (k,) for k in range(a[1])]
    for a, r in zip(redo, pmap(run, redo)):
        if r[0] == 'ok':
            for k, t in r[1]:
                traces.append(t)
                meta.append(k)
        else:
            v, ins, outs, trees, vs, stim = ('',) * 6
            try:
                v, ins, outs, trees, vs, stim = build(a)
            except Exception:
                pass
            chk.violation('%s:%s' % (trees[0][0] if trees else 'build', r[0]), r[1],
                          dict(err=list(r), seed=a, tree=trees and trees[0], verilog=v))
    np = chk.n(8, 8)
    for r in pmap(enum, [(p, np, rng.randrange(2 ** 40)) for p in range(np)]):
        if r[0] != 'ok':
            chk.violation('enum:%s' % r[0], r[1], list(r))
            continue
        for k, t in r[1]:
            if chk.quick():
                t['ev'] = rng.sample(t['ev'], 16)
            traces.append(t)
            meta.append(k)
    for r in pmap(sels, [0]):
        if r[0] != 'ok':
            chk.violation('select:%s' % r[0], r[1], list(r))
        else:
            for k, t in r[1]:
                traces.append(t)
                meta.append(k)
    (st, known), = pmap(opt_known, [0])
    for k, t in known:
        traces.append(t)
        meta.append(k)
    for i, ok, line, cl, det in vlib.validate(chk, 'VExprTrace', 'VExprTrace.cfg', traces, jobs=8):
        if not ok:
            t = traces[i]
            chk.violation('%s:%s' % (meta[i], '/'.join(ops(t['e']))),
                          '%s row %d (expected, got; bits LSB first): %s' % (show(t['e']) + ' %s' % t.get('src'), line, [hexv(t, line, det)]),
                          dict(tree=t['e'], lw=t['lw'], w=t['w'], s=t['s'], row=t['ev'][line - 1]))
    chk.extra['expressions'] = len(traces)
    chk.extra['values'] = sum(len(t['ev']) for t in traces)
    if traces:
        chk.sample(dict(tree=traces[0]['e'], lw=traces[0]['lw'], row=traces[0]['ev'][0]))
    return chk.finish()


if __name__ == '__main__':
    vlib.main(main)
