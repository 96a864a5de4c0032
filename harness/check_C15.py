"""C15: ready/valid pipelines (dataflow, pipeline and stream layers) against Flow.tla."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from flowlib import *

BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '~^', '<', '<=', '>', '>=', '==', '!=', '&&', '||']
RED = ['r&', 'r~&', 'r|', 'r~|', 'r^', 'r~^', 'u!']


class G(object):
    """Random operator graph.  Keeps widths and signs with the same rules the
    specification applies (only to choose sensible operands)."""

    def __init__(self, rng, layer):
        self.rng, self.layer = rng, layer
        self.nodes, self.ws, self.cone, self.lat = [], [], [], []
        self.muls = 0
        self.divu = False

    def add(self, nd, w, s, cone=(), lat=1):
        if any(self.nodes[a - 1]['k'] == 'k' and self.nodes[a - 1].get('v', 0) < 0 for a in nd['a']):
            nd['c'] = [CE(self.nodes[a - 1]['v']) if self.nodes[a - 1]['k'] == 'k' and 'par' not in self.nodes[a - 1] else [] for a in nd['a']]
        self.nodes.append(nd)
        self.ws.append((w, int(bool(s))))
        c = set(cone)
        for a in nd['a'] + [x for x in (nd['n'][1:3] if nd['k'] in ('acc', 'cnt', 'pulse') else []) if x]:
            c |= self.cone[a - 1]
        self.cone.append(c)
        self.lat.append(lat + max([0] + [self.lat[a - 1] for a in nd['a']]))
        return len(self.nodes)

    def acc(self, x):
        return None

    def w(self, i):
        return self.ws[i - 1][0]

    def s(self, i):
        return self.ws[i - 1][1]

    def const(self, lo=-9, hi=40):
        v = self.rng.randrange(lo, hi)
        w = abs(v).bit_length() + 1
        return self.add(node('k', w=w, s=1, b=bits(v % (1 << w), w), v=v), w, 1, lat=0)

    def pick(self, maxw=40, signed=None, cond=None, stream=True):
        c = [i for i in range(1, len(self.nodes) + 1) if self.w(i) <= maxw and
             (signed is None or self.s(i) == signed) and (not stream or self.nodes[i - 1]['k'] not in ('k', 'par'))
             and (cond is None or cond(i))]
        if not c:
            return None
        m = max(1, len(c) * 2 // 3)
        return self.rng.choice(c[-m:] if self.rng.random() < .6 else c)


def op_df(g):
    """one random operator of the dataflow layer"""
    rng = g.rng
    c = rng.random()
    x = g.pick(24)
    if x is None:
        return
    if c < .42:
        op = rng.choice(BIN)
        if op in '*/%':
            if g.muls >= 2:
                op = rng.choice('+-')
            else:
                x = g.pick(14)
                if x is None:
                    return
                g.muls += 1
        if op in ('/', '%'):
            if g.layer == 'strm' and g.w(x) < 4:
                return      # the stream layer's dividers need four bits
            # the divisor is never zero and has the sign of the dividend
            if g.layer == 'df':
                # known finding: unsigned operands with the top bit set, most negative dividend
                if rng.random() < .9:
                    x = g.add(node('>>>' if g.s(x) else '>>', [x, g.const(1, 2)], [1]), g.w(x), g.s(x))
                else:
                    g.divu = True
            y = g.pick(14, signed=g.s(x), cond=lambda i: 1 < g.w(i) <= g.w(x))
            if y is None or g.s(x):
                if not g.s(x):
                    return
                y = g.const(1, 12) if g.layer == 'df' else rng.choice((1, -1)) * rng.randrange(1, 12)
                if g.layer != 'df':
                    y = g.const(y, y + 1)
            else:
                # y | 1 is unsigned: only unsigned operands can be forced odd
                if g.s(x):
                    return
                k = g.const(1, 2)
                if g.nodes[x - 1]['k'] == '>>' or g.layer != 'df':
                    if g.layer == 'df':
                        y = g.add(node('>>', [y, k], [1]), g.w(y), 0)
                else:
                    g.divu = True
                y = g.add(node('|', [y, k]), max(g.w(y), 2), 0, lat=1)
            return g.add(node(op, [x, y]), max(g.w(x), g.w(y)), g.s(x) and g.s(y), lat=max(g.w(x), g.w(y)) + 6)
        y = g.pick(24 if op != '*' else 14) if rng.random() < .8 else g.const()
        a = [x, y]
        if y and g.nodes[y - 1]['k'] == 'k' and rng.random() < .3 and op not in ('&&', '||'):
            a = [y, x]
        if y is None:
            return
        if op in ('+', '-', '*'):
            return g.add(node(op, a), max(g.w(x), g.w(y)), g.s(x) and g.s(y), lat=8 if op == '*' else 1)
        if op in ('&', '|', '^', '~^'):
            return g.add(node(op, a), max(g.w(x), g.w(y)), 0)
        return g.add(node(op, a), 1, 0)
    if c < .5:
        op = rng.choice(RED + ['u~', 'u-', 'u+'])
        w, s = (1, 0) if op in RED else (g.w(x), 0 if op == 'u~' else g.s(x))
        return g.add(node(op, [x]), w, s)
    if c < .58:
        op = rng.choice(['<<', '>>', '>>>'])
        if rng.random() < .5:
            v = rng.randrange(0, 6)
            k = g.const(v, v + 1)
            return g.add(node(op, [x, k], [v]), g.w(x) + (v if op == '<<' else 0), op != '>>' and g.s(x))
        y = g.pick(3, signed=0)
        if y is None:
            return
        return g.add(node(op, [x, y], [-1]), g.w(x) + (2 ** g.w(y) if op == '<<' else 0), op != '>>' and g.s(x))
    if c < .66:
        d = rng.random()
        w = g.w(x)
        if d < .4:
            lo = rng.randrange(w)
            hi = rng.randrange(lo, w)
            return g.add(node('sl', [x], [hi, lo]), hi - lo + 1, 0)
        if d < .7:
            v = rng.randrange(w)
            k = g.const(v, v + 1)
            return g.add(node('bit', [x, k]), 1, 0)
        y = g.pick(3, signed=0, cond=lambda i: 2 ** g.w(i) <= w)
        if y is None:
            return
        return g.add(node('bit', [x, y]), 1, 0)
    if c < .72:
        if rng.random() < .6:
            a = [g.pick(10) for _ in range(rng.randrange(2, 4))]
            if None in a:
                return
            return g.add(node('cat', a), sum(g.w(i) for i in a), 0)
        x = g.pick(6)
        if x is None:
            return
        n = rng.randrange(2, 4)
        return g.add(node('rep', [x], [n]), n * g.w(x), 0)
    if c < .79:
        cc, y = g.pick(8), g.pick(24)
        if rng.random() < .2:
            y = g.const()
        if cc is None:
            return
        return g.add(node('?', [cc, x, y]), max(g.w(x), g.w(y)), g.s(x) or g.s(y))
    if c < .82:
        if g.s(x) == 0:
            return
        if rng.random() < .5:
            return g.add(node('abs', [x]), g.w(x), g.s(x), lat=3)
        if g.layer == 'strm':
            return g.add(node('neg', [x]), g.w(x), g.s(x))
        return g.add(node('sign', [x]), 1, 0)
    if c < .85:
        x = g.pick(4, signed=0, cond=lambda i: g.w(i) >= 1)
        if x is None:
            return
        n = 2 ** g.w(x)
        w = rng.randrange(3, 12)
        if rng.random() < .4 and n >= 4:
            # a table whose length is no power of two, addressed within its range
            n = n // 2 + rng.randrange(1, n // 2)
        t = [bits(rng.randrange(1 << w), w) for _ in range(n)]
        s = int(rng.random() < .5)
        return g.add(node('lut', [x], w=w, s=s, t=t), w, s)
    if c < .92:
        n = rng.randrange(1, 4)
        if any(nd['k'] == 'prev' and nd['a'] == [x] and nd['n'] == [n] for nd in g.nodes):
            return
        return g.add(node('prev', [x], [n], i=KE(0)), g.w(x), g.s(x), lat=0)
    # accumulators
    if g.layer == 'strm':
        return g.acc(x)
    size = rng.choice((0, 0, 2, 3, 4, 5))
    en = (g.pick(6) or 0) if rng.random() < .35 else 0
    rs = (g.pick(3) or 0) if rng.random() < .25 and not size else 0
    k = rng.random()
    if k < .15:
        step = rng.choice((1, 1, 2, 3))
        i0 = rng.choice((0, 0, 5)) - step
        w = abs(i0).bit_length() + 1
        return g.add(node('cnt', [x], [size, en, rs], w=32, s=0, b=bits(step, 32), op='+',
                          i=CE(i0), step=step, init=i0 + step), 32, 0)
    if k < .3 and size:
        en = 0
        return g.add(node('pulse', [x], [size, en, 0]), 1, 0)
    op = rng.choice(('+', '+', '-', '*', '&', '|', '^', 'max', 'min'))
    i0 = rng.choice((0, 0, 1, 7, -3))
    w = abs(i0).bit_length() + 1
    W = rng.choice((0, 0, 8, 16, 20))
    S = g.s(x)
    if W and rng.random() < .3:
        S = 1 - S
    return g.add(node('acc', [x], [size, en, rs], w=W, s=S, op=op, i=CE(i0), init=i0), W or g.w(x), S)


def tree(rng, g, d):
    """expression of a pipeline stage over earlier nodes"""
    if d == 0 or rng.random() < .15:
        if rng.random() < .8:
            return ['v', g.pick()]
        return KE(rng.randrange(0, 40), 32, 1)
    c = rng.random()
    if c < .55:
        op = rng.choice(['+', '-', '*', '&', '|', '^', '~^', '<', '<=', '>', '>=', '==', '!=', '&&', '||'])
        return [op, tree(rng, g, d - 1), tree(rng, g, d - 1)]
    if c < .68:
        return [rng.choice(['u~', 'u-', 'u!', 'r&', 'r|', 'r^']), tree(rng, g, d - 1)]
    if c < .76:
        return [rng.choice(['<<', '>>']), tree(rng, g, d - 1), KE(rng.randrange(5), 32, 1)]
    if c < .84:
        return ['?', tree(rng, g, d - 1), tree(rng, g, d - 1), tree(rng, g, d - 1)]
    return ['cat', [['v', g.pick()] for _ in range(2)]]


def refs(e, acc):
    if isinstance(e, list) and e and isinstance(e[0], list):
        for x in e:
            refs(x, acc)
    elif isinstance(e, list) and e:
        if e[0] == 'v':
            acc.add(e[1])
        elif e[0] in ('sl', 'bit'):
            acc.add(e[1])
        if e[0] != 'k':
            for x in e[1:]:
                refs(x, acc)
    return acc


def op_pipe(g):
    rng = g.rng
    c = rng.random()
    if c < .2:
        x = g.pick()
        n = rng.randrange(1, 4)
        i0 = 0
        if any(nd['k'] == 'prev' and nd['a'] == [x] and nd['n'] == [n] for nd in g.nodes):
            return
        return g.add(node('prev', [x], [n], i=KE(i0), init=i0), g.w(x), 0 if g.nodes[x - 1]['k'] != 'in' else 0, lat=0)
    e = tree(rng, g, rng.randrange(1, 3))
    r = sorted(refs(e, set()))
    stage = lambda i: stage(g.nodes[i - 1]['a'][0]) if g.nodes[i - 1]['k'] == 'prev' else \
        1 + max(stage(x) for x in g.nodes[i - 1]['a']) if g.nodes[i - 1]['a'] else 0

    def even(x):
        # an intermediate result that waits for a later operand is stored with
        # the width of its operands: only variables are left waiting
        if not isinstance(x, list) or not x or x[0] in ('v', 'k', 'bit', 'sl'):
            return True
        a = [y for y in (x[1] if x[0] == 'cat' else x[1:])]
        st = [max([stage(i) for i in refs(y, set())], default=-1) for y in a]
        return all(even(y) and (y[0] in 'vk' or t == max(st) or t == -1) for y, t in zip(a, st))
    if not even(e):
        return
    if not r or e[0] == 'v' and rng.random() < .7:
        return
    w = rng.choice((4, 8, 12, 16, 20))
    if c < .35:
        op = rng.choice(('+', '-', '*', '&', '|', '^', 'nand', 'nor', 'xnor', 'max', 'min'))
        i0 = rng.choice((0, 0, 1, 5, 15))
        return g.add(node('acc', r, [0, 0, 0], w=w, s=0, op=op, e=e, i=KE(i0), init=i0), w, 0)
    return g.add(node('x', r, w=w, s=0, e=e), w, 0)


def regime(rng, d, g, outs, hs):
    root = lambda i: root(g.nodes[i - 1]['a'][0]) if g.nodes[i - 1]['k'] == 'prev' else i
    cons = {}
    for i, nd in enumerate(g.nodes):
        if nd['k'] != 'prev':
            for a in nd['a'] + [x for x in (nd['n'][1:3] if nd['k'] in ('acc', 'cnt', 'pulse') else []) if x]:
                if g.nodes[a - 1]['k'] != 'k':
                    cons.setdefault(root(a), set()).add(i)
    for j, i in enumerate(outs):
        cons.setdefault(root(i), set()).add(-1 - j)
    alias = len(set(root(i) for i in outs)) < len(outs)
    if d['layer'] == 'strm' or hs != 'full':
        return 'lock', alias
    if all(len(c) == 1 for c in cons.values()):
        return 'tree', alias
    return ('fork' if rng.random() < .12 else 'lock'), alias


def gen(rng, k, layer):
    while True:
        g = G(rng, layer)
        d = dict(layer=layer, name='m%d' % k, N=rng.randrange(6, 14), seed=rng.randrange(1, 1 << 30))
        ni = rng.choice((1, 1, 2, 2, 3))
        hs = rng.choice(('full', 'full', 'full', 'full', 'valid', 'none'))
        d['ig'], d['ins'] = [], []
        for j in range(ni):
            w = rng.choice((1, 2, 3, 4, 5, 6, 8, 8, 12))
            s = int(rng.random() < .5)
            gi = 0 if layer == 'strm' else j
            if gi == len(d['ig']):
                d['ig'].append(dict(valid='iv%d' % j if hs != 'none' else None, ready='ir%d' % j if hs == 'full' else None,
                                    p=rng.choice((2, 4, 7, 8)) if hs == 'full' else (8 if ni > 1 and layer != 'strm' else rng.choice((3, 8)))))
            d['ins'].append(dict(port='x%d' % j, w=w, s=s, g=gi, tok=[rnd(rng, w) for _ in range(d['N'])]))
            g.add(node('in', n=[j + 1], w=w, s=s), w, s, cone=[gi], lat=0)
        if layer == 'df' and rng.random() < .25:
            w, v = rng.randrange(3, 9), rng.randrange(4)
            s = int(rng.random() < .5)
            g.add(node('k', w=w, s=s, b=bits(v, w), par='P%d' % len(g.nodes), v=v), w, s, lat=0)
        for _ in range(rng.randrange(2, 9)):
            op_df(g) if layer != 'pipe' else op_pipe(g)
        used = set()
        for nd in g.nodes:
            used |= set(nd['a']) | set(x for x in (nd['n'][1:3] if nd['k'] in ('acc', 'cnt', 'pulse') else []) if x)
        ins = set(range(1, ni + 1))
        outs = [i for i in range(1, len(g.nodes) + 1) if i not in used and g.nodes[i - 1]['k'] not in ('in', 'k')]
        outs += [i for i in used if g.nodes[i - 1]['k'] not in ('in', 'k') and rng.random() < .15]
        outs = outs[:4]
        if not outs or max(g.ws[i - 1][0] for i in range(1, len(g.nodes) + 1)) > 64:
            continue
        # every input must matter, every output must need an input
        if any(not g.cone[i - 1] for i in outs) or max(g.lat[i - 1] for i in outs) < 1:
            continue
        if layer != 'strm' and set().union(*[g.cone[i - 1] for i in outs]) != set(range(len(d['ig']))):
            continue
        if layer == 'strm':
            live = set()
            st = list(outs)
            while st:
                i = st.pop()
                if i not in live:
                    live.add(i)
                    st += g.nodes[i - 1]['a'] + [x for x in (g.nodes[i - 1]['n'][1:3] if g.nodes[i - 1]['k'] in ('acc', 'cnt', 'pulse') else []) if x]
            if not set(range(1, ni + 1)) <= live:
                continue
        d['nodes'], d['divu'] = g.nodes, g.divu
        d['ws'] = g.ws
        d['og'], d['outs'] = [], []
        # tree: no token has two consumers, anything may stall independently
        # lock: inputs offered together, outputs accepted together; fork: neither
        d['regime'], d['alias'] = regime(rng, d, g, outs, hs)
        rd0 = rng.random() < .85
        if d['regime'] == 'lock' and layer == 'df' and len(outs) > 1 and any(nd['k'] in '*/%' for nd in g.nodes):
            # multiplier and divider pipelines do not squeeze out bubbles
            rd0 = False
        for j, i in enumerate(outs):
            gi = 0 if layer == 'strm' else j
            if gi == len(d['og']):
                rd = hs == 'full' and (rd0 if d['regime'] == 'lock' else rng.random() < .85)
                d['og'].append(dict(valid='ov%d' % j if hs != 'none' else None, ready='or%d' % j if rd else None,
                                    p=rng.choice((1, 3, 5, 7)), mode=int(rng.random() < .2), cone=sorted(g.cone[i - 1])))
            else:
                d['og'][gi]['cone'] = sorted(set(d['og'][gi]['cone']) | g.cone[i - 1])
            d['outs'].append(dict(port='z%d' % j, w=g.ws[i - 1][0], g=gi, node=i))
        d['hs'] = hs
        if hs == 'valid' and layer != 'strm' and ni > 1:
            # without backpressure simultaneous inputs must arrive together
            for I in d['ig']:
                I['p'] = 8
        if hs == 'none':
            continue
        lat = 30 + sum(45 for nd in g.nodes if nd['k'] in '*/%')
        d['t0'] = 20 + rng.choice((4, 8)) * d['N']
        d['t1'] = d['t0'] + 2 * d['N'] + lat + 10
        return d


def opfn(op):
    import veriloggen as vg
    return {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '&': lambda a, b: a & b,
            '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
            '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
            '/': lambda a, b: a / b, '%': lambda a, b: a % b, 'u-': lambda a: -a, 'u~': lambda a: ~a, 'u+': lambda a: +a}.get(op)


def build_ops(D, d, objs, variable, extra=None):
    """shared by the dataflow and stream layers: D is the module of operators"""
    names = {'~^': 'Xnor', '&&': 'Land', '||': 'Lor', 'r&': 'Uand', 'r~&': 'Unand', 'r|': 'Uor', 'r~|': 'Unor',
             'r^': 'Uxor', 'r~^': 'Uxnor', 'u!': 'Ulnot'}
    first = set(nd['a'][0] for nd in d['nodes'] if nd['a'])
    for i, nd in enumerate(d['nodes']):
        k = nd['k']
        a = [objs[x - 1] for x in nd['a']]
        f = opfn(k)
        if extra is not None and k != 'k' and extra(D, i, nd, a, objs):
            continue
        if k == 'in':
            o = variable(d['ins'][nd['n'][0] - 1])
        elif k == 'k':
            o = D.Parameter(nd['par'], nd['v'], width=nd['w'], signed=bool(nd['s'])) if 'par' in nd else \
                D.Constant(nd['v']) if i + 1 in first or extra else nd['v']
        elif k == 'u~':
            o = D.Unot(a[0])
        elif k in names:
            o = getattr(D, names[k])(*a)
        elif k == '<<':
            o = a[0] << a[1]
        elif k == '>>':
            o = a[0] >> a[1]
        elif k == '>>>':
            o = a[0].sra(a[1])
        elif k == 'bit':
            o = a[0][a[1]]
        elif k == 'sl':
            o = a[0].slice(nd['n'][0], nd['n'][1]) if i % 2 else a[0][nd['n'][1]:nd['n'][0] + 1]
        elif k == 'cat':
            o = D.Cat(*a)
        elif k == 'rep':
            o = a[0].repeat(nd['n'][0])
        elif k == '?':
            o = D.Mux(*a)
        elif k == 'abs':
            o = D.Abs(a[0])
        elif k in ('sign', 'neg'):
            o = D.Sign(a[0])
        elif k == 'lut':
            o = D.LUT(a[0], [sum(b << j for j, b in enumerate(t)) for t in nd['t']], width=nd['w'], signed=bool(nd['s']))
        elif k == 'prev':
            o = a[0].prev(nd['n'][0])
        elif k in ('acc', 'cnt', 'pulse'):
            size, en, rs = nd['n']
            kw = dict(enable=objs[en - 1] if en else None, reset=objs[rs - 1] if rs else None)
            if k == 'cnt':
                o = D.Counter(step=nd['step'], size=size or None, initval=nd['init'], control=a[0], **kw)
            elif k == 'pulse':
                o = D.Pulse(size, control=a[0], **kw)
            else:
                kw.update(size=size or None, initval=nd['init'])
                if nd['w']:
                    kw.update(width=nd['w'], signed=bool(nd['s']))
                import veriloggen.core.vtypes as vt
                if nd['op'] in ('+', '-', '*'):
                    o = getattr(D, {'+': 'ReduceAdd', '-': 'ReduceSub', '*': 'ReduceMul'}[nd['op']])(a[0], **kw)
                else:
                    ops = {'&': vt.And, '|': vt.Or, '^': vt.Xor,
                           'max': lambda p, q: vt.Mux(p > q, p, q), 'min': lambda p, q: vt.Mux(p < q, p, q)}[nd['op']]
                    o = D.ReduceCustom(ops, a[0], **kw)
        else:
            o = f(*a)
        objs.append(o)


def build_df(d):
    import veriloggen.dataflow as df
    objs = []

    def var(I):
        G = d['ig'][I['g']]
        return df.Variable(I['port'], valid=G['valid'], ready=G['ready'], width=I['w'], signed=bool(I['s']))
    build_ops(df, d, objs, var)
    outs = []
    for O in d['outs']:
        G = d['og'][O['g']]
        objs[O['node'] - 1].output(O['port'], valid=G['valid'], ready=G['ready'])
        outs.append(objs[O['node'] - 1])
    return df.Dataflow(*outs).to_module(d['name']).to_verilog()


def build_strm(d):
    import veriloggen.stream as st
    objs = []
    build_ops(st, d, objs, lambda I: st.Variable(I['port'], width=I['w'], signed=bool(I['s'])))
    outs = []
    for O in d['outs']:
        objs[O['node'] - 1].output(O['port'])
        outs.append(objs[O['node'] - 1])
    I, O = d['ig'][0], d['og'][0]
    kw = dict(ivalid=I['valid'], iready=I['ready'], ovalid=O['valid'], oready=O['ready'])
    return st.Stream(*outs, **dict((k, v) for k, v in kw.items() if v)).to_module(d['name']).to_verilog()


def build_pipe(d):
    import veriloggen as vg
    import veriloggen.core.vtypes as vt
    m = vg.Module(d['name'])
    clk, rst = m.Input('CLK'), m.Input('RST')
    p = vg.Pipeline(m, 'df', clk, rst, width=16)
    objs = []

    def ex(e):
        k = e[0]
        if k == 'v':
            return objs[e[1] - 1]
        if k == 'k':
            v = sum(b << j for j, b in enumerate(e[3]))
            return v
        if k == 'cat':
            return vg.Cat(*[ex(x) for x in e[1]])
        if k == 'sl':
            return vg.Slice(objs[e[1] - 1], e[2], e[3])
        if k == 'bit':
            return vg.Pointer(objs[e[1] - 1], ex(e[2]))
        a = [ex(x) for x in e[1:]]
        f = {'~^': vt.Xnor, '&&': vt.Land, '||': vt.Lor, 'u!': vt.Ulnot, 'u~': vt.Unot, 'u-': vt.Uminus, 'r&': vt.Uand, 'r|': vt.Uor,
             'r^': vt.Uxor, '?': vt.Cond, '<<': vt.Sll, '>>': vt.Srl, '+': vt.Plus, '-': vt.Minus, '*': vt.Times,
             '&': vt.And, '|': vt.Or, '^': vt.Xor, '<': vt.LessThan, '<=': vt.LessEq, '>': vt.GreaterThan,
             '>=': vt.GreaterEq, '==': vt.Eq, '!=': vt.NotEq}[k]
        return f(*a)

    for nd in d['nodes']:
        k = nd['k']
        if k == 'in':
            I = d['ins'][nd['n'][0] - 1]
            G = d['ig'][I['g']]
            x = m.Input(I['port'], I['w'], signed=bool(I['s']))
            o = p.input(x, valid=m.Input(G['valid']) if G['valid'] else None,
                        ready=m.Output(G['ready']) if G['ready'] else None)
        elif k == 'prev':
            o = objs[nd['a'][0] - 1].prev(nd['n'][0])
        elif k == 'acc':
            n = {'+': 'add', '-': 'sub', '*': 'mul', '&': 'and', '|': 'or', '^': 'xor'}.get(nd['op'], nd['op'])
            o = getattr(p, 'acc_' + n)(ex(nd['e']), initval=nd['init'], width=nd['w'])
        else:
            o = p(ex(nd['e']), width=nd['w'])
        objs.append(o)
    for O in d['outs']:
        G = d['og'][O['g']]
        objs[O['node'] - 1].output(m.Output(O['port'], O['w']), valid=m.Output(G['valid']) if G['valid'] else None,
                                   ready=m.Input(G['ready']) if G['ready'] else None)
    p.make_always()
    return m.to_verilog()


BUILD = dict(df=build_df, strm=build_strm, pipe=build_pipe)


def run(ds):
    """build and simulate a bundle; designs that do not build are reported one by one"""
    res, ok, texts = {}, [], []
    for d in ds:
        try:
            texts.append(BUILD[d['layer']](d))
            ok.append(d)
        except Exception as e:
            res[d['name']] = ('exc', '%s: %s' % (type(e).__name__, e))
    try:
        recs = simulate_all(ok, texts) if ok else []
        for d, r in zip(ok, recs):
            res[d['name']] = ('ok', trace(d, r))
    except SimError as e:
        if len(ok) == 1:
            res[ok[0]['name']] = ('sim', str(e))
        else:
            for d, t in zip(ok, texts):
                try:
                    res[d['name']] = ('ok', trace(d, simulate_all([d], [t])[0]))
                except SimError as e:
                    res[d['name']] = ('sim', str(e))
    return [res[d['name']] for d in ds], dict(zip([d['name'] for d in ok], texts)) if os.environ.get('FLOWDBG') else None


def brief(d):
    return dict(name=d['name'], seed=d['seed'], layer=d['layer'], nodes=[(i + 1, n['k'], n['a'], n['n'], n.get('op'), n['e'], d['ws'][i]) for i, n in enumerate(d['nodes'])],
                ins=d['ins'], ig=d['ig'], outs=d['outs'], og=d['og'])


def main():
    chk = Check('C15')
    model_check(chk, 'FlowMC', 'FlowMC.cfg')
    model_check(chk, 'FlowMC', 'FlowMC_lock7.cfg')
    model_check(chk, 'FlowMC', 'FlowMC_tree6.cfg')
    if not chk.quick():
        for c in ('lock2', 'lock3', 'lock4', 'lock5', 'tree1', 'group2', 'group3', 'group4', 'group5', 'group7'):
            model_check(chk, 'FlowMC', 'FlowMC_%s.cfg' % c)
    N = chk.n(360, 6000)
    lay = ['df', 'df', 'df', 'pipe', 'pipe', 'strm']
    D = [gen(chk.rng, k, lay[k % len(lay)]) for k in range(N)]
    B = [D[i::N // 12] for i in range(N // 12)]
    T, idx = [], []
    for b, r in zip(B, pmap(run, B, chunksize=1)):
        if r[0] != 'ok':
            chk.violation('bundle:%s' % r[0], r[1], dict(designs=[brief(d) for d in b]))
            continue
        for d, x in zip(b, r[1][0]):
            if x[0] != 'ok':
                chk.violation('%s:%s' % (d['layer'], x[0]), x[1], brief(d))
            else:
                T.append(x[1])
                idx.append(d)
    for (i, ok, line, clause, det) in validate(chk, 'FlowTrace', 'FlowTrace.cfg', T, jobs=8):
        if not ok:
            d = idx[i]
            m = re.search(r'"node", (\d+)', det)
            nd = d['nodes'][int(m.group(1)) - 1] if m else None
            chk.violation('%s:%s%s:%s' % (d['layer'], ('fork:' if d['regime'] == 'fork' else '') + ('divu:' if d['divu'] else ''), clause, (nd['k'] + nd.get('op', '')) if nd and clause == 'value' else d['hs']), det,
                          dict(design=brief(d), event=T[i]['ev'][max(0, line - 3):line + 1]))
    chk.extra.update(designs=N, tokens=sum(d['N'] for d in D), cycles=sum(len(t['ev']) for t in T))
    chk.sample(T[0]['ev'][:4])
    chk.assumptions = ['inputs hold valid and data until accepted', 'divisors are not zero']
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
