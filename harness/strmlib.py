"""Thread-controlled streams: random programs, the design that runs them, and traces for StrmTrace.tla."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check_C15 import *
import check_C15

STATE = ('sacc', 'ctr', 'pred', 'arg', 'rb', 'sp', 'rram')


class GS(G):
    def __init__(self, rng, stateful):
        G.__init__(self, rng, 'strm')
        self.stateful = stateful
        self.hidden = set()
        self.pars = []
        self.rr = 0
        self.rams = []      # read_RAM tables
        self.taint = set()  # values that can come from memory words that were never written

    def pick(self, maxw=40, signed=None, cond=None, stream=True):
        return G.pick(self, maxw, signed, lambda i: i not in self.hidden and (cond is None or cond(i)), stream)

    def add(self, nd, w, s, cone=(), lat=1):
        i = G.add(self, nd, w, s, cone, lat)
        for u in uses(nd):
            self.cone[i - 1] |= self.cone[u - 1]
            self.lat[i - 1] = max(self.lat[i - 1], lat + self.lat[u - 1])
        if nd['k'] in ('rb', 'sp') or (nd['k'] == 'rram' and len(nd['a']) > 1) or uses(nd) & self.taint:
            self.taint.add(i)
        return i

    def ctl(self, maxw=40, signed=None, cond=None):
        return self.pick(maxw, signed, lambda i: i not in self.taint and (cond is None or cond(i)))

    def spec(self, nd, w, s):
        i = self.add(nd, w, s)
        self.hidden.add(i)
        return i

    def reset(self):
        """reset of a stateful operator: the first element of a run, or a user's condition"""
        rng = self.rng
        if rng.random() < .25:
            r = self.ctl(3)
            if r:
                return self.spec(node('||', [self.rr, r], hw=0), 1, 0), r
        return self.rr, 0

    def acc(self, x):
        if not self.stateful or x is None:
            return None
        rng = self.rng
        c = rng.random()
        en = (self.ctl(6) or 0) if rng.random() < .35 else 0
        size = rng.choice((0, 0, 2, 3, 4, 5, 7))
        sz = 0
        if self.pars and rng.random() < .2:
            sz, size = rng.choice(self.pars), 0
        iv = rng.choice((0, 0, 0, 0, 2, 3))
        rst, ur = self.reset()
        if c < .4:
            op = rng.choice(('+', '+', '+', '-', '*', 'max', 'min', 'max', '&', '|', '^'))
            if op == '*':
                if self.muls >= 2:
                    op = '+'
                self.muls += 1
            i0 = rng.choice((0, 0, 0, 1, 7, -3))
            w = rng.choice((8, 16, 20, 32))
            s = int(rng.random() < .6)
            i = self.add(node('sacc', [x], [size, en, rst, iv, sz], w=w, s=s, op=op, i=CE(i0), init=i0, ur=ur,
                              dflt=int(w == 32 and s), lat=1), w, s)
            if rng.random() < .4 and (size or sz):
                # the variant that also tells when a window is complete
                self.nodes[i - 1]['valid'] = 1
                self.add(node('sacc', [x], [size, en, rst, iv, sz], w=1, s=0, op='pulse', i=CE(0), of=i), 1, 0)
            if op in ('max', 'min') and rng.random() < .5:
                # the variant that also tells the position of the element
                self.nodes[i - 1]['arg'] = 1
                cn = self.spec(node('ctr', [x], [size, en, rst, iv, sz, 0, 1, -1], w=32, s=0, ur=ur, hw=0), 32, 0)
                return self.add(node('arg', [i, cn], of=i), 32, 0)
            return i
        if c < .5 and (size or sz):
            return self.add(node('sacc', [x], [size, en, rst, iv, sz], w=1, s=0, op='pulse', i=CE(0), ur=ur), 1, 0)
        if c < .66:
            step = rng.choice((1, 1, 2, 3))
            i0 = rng.choice((0, 0, 1, 4))
            if size and size < step:
                size = 0
            off = rng.choice((-1, -1, -1, 0, 2)) if size else -1
            w = rng.choice((32, 32, 12))
            return self.add(node('ctr', [x], [size, en, rst, iv, 0, i0, step, off], w=w, s=0, ur=ur), w, 0)
        if c < .76:
            cc = self.ctl(4)
            return cc and self.add(node('pred', [x] + ([cc] if rng.random() < .85 else []), reg=int(rng.random() < .4)), self.w(x), self.s(x))
        if c < .84:
            n = rng.choice((2, 3, 4, 5, 8))
            o = rng.choice(self.pars) if self.pars and rng.random() < .3 else None
            if o is None:
                v = rng.randrange(n)
                o = self.const(v, v + 1)
            return self.add(node('rb', [x, o], [n, en]), self.w(x), self.s(x))
        if c < .92:
            n = rng.choice((2, 4, 8))
            wa = self.ctl(6, signed=0)
            ra = [i for i in range(1, len(self.nodes) + 1) if self.nodes[i - 1]['k'] == 'in' and i not in self.hidden and not self.s(i)]
            if wa is None or not ra:
                return None
            return self.add(node('sp', [x, wa, rng.choice(ra)], [n, en]), self.w(x), self.s(x))
        aw = rng.choice((2, 3, 4))
        ad = self.ctl(10, signed=0) or self.ctl(10, cond=lambda i: self.w(i) >= aw)
        if ad is None:
            return None
        w = rng.choice((4, 8, 12))
        s = int(rng.random() < .5)
        cc = self.ctl(4) if rng.random() < .5 else None
        self.rams.append(len(self.nodes) + 1)
        return self.add(node('rram', [ad] + ([cc] if cc else []), [aw], w=w, s=s,
                             t=[bits(rnd(rng, w), w) for _ in range(2 ** aw)]), w, s)


def pats(rng, n, A, kind):
    """an access pattern of n elements in a memory of A words: [[offset, [size, stride], ...], ...]"""
    def fits(p):
        lo = hi = p[0]
        for s, t in p[1:]:
            hi += max(0, (s - 1) * t)
            lo += min(0, (s - 1) * t)
        return lo >= 0 and hi < A
    for _ in range(200):
        if kind == 'ram':
            p = [[rng.randrange(A), [n, rng.choice((1, 1, 1, 2, 3, -1))]]]
        elif kind == 'pat':
            d = factors(rng, n)
            p = [[rng.randrange(A // 2)] + [[x, rng.choice((0, 1, 1, 2, 3, 5, -1))] for x in d]]
        elif kind == 'dim':
            sh = factors(rng, n)
            od = list(range(len(sh)))
            rng.shuffle(od)
            off = rng.randrange(A)
            p = [[off] + [[sh[q], prod(sh[q + 1:])] for q in od]]
        else:
            m = rng.randrange(1, n) if n > 1 else 0
            parts = [m, n - m] if m and rng.random() < .8 else [n]
            p = [[rng.randrange(A // 2)] + [[x, rng.choice((0, 1, 2, 3))] for x in factors(rng, q)] for q in parts]
        if all(fits(q) for q in p):
            return (p, sh, od) if kind == 'dim' else (p, None, None)
    return [[0, [n, 0]]], None, None


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def factors(rng, n):
    out = []
    while n > 1 and len(out) < 3:
        f = rng.choice([x for x in range(2, n + 1) if n % x == 0])
        out.append(f)
        n //= f
    if n > 1 or not out:
        out.append(n)
    if len(out) < 4 and rng.random() < .15:
        out.insert(rng.randrange(len(out) + 1), 1)
    return out


def sgen(rng, k, stateful):
    A = 32
    while True:
        g = GS(rng, stateful)
        d = dict(layer='strm', name='s%d' % k, seed=rng.randrange(1, 1 << 30), ins=[])
        ns, npar = rng.choice((1, 1, 2, 2, 3)), rng.choice((0, 0, 1, 2))
        sw = rng.choice((4, 8, 12, 16, 32))
        for j in range(ns + npar):
            w = sw if rng.random() < .6 else rng.choice((1, 2, 3, 4, 6, 8, 12))
            s = 1 if w == sw and rng.random() < .6 else int(rng.random() < .5)
            src = j < ns
            d['ins'].append(dict(name='%s%d' % ('x' if src else 'p', j), w=w, s=s, src=src, dflt=int(w == sw and s)))
            i = g.add(node('in', n=[j + 1], w=w, s=s), w, s, cone=[j] if src else [], lat=0)
            if not src and not s and w > 2:
                g.pars.append(i)
        g.rr = g.spec(node('in', n=[ns + npar + 1], w=1, s=0, hw=0), 1, 0)
        for _ in range(rng.randrange(2, 8)):
            g.acc(g.pick(24)) if stateful and rng.random() < .5 else op_df(g)
        n0 = len(g.nodes)
        used = set()
        for nd in g.nodes:
            used |= uses(nd)
        cand = [i for i in range(1, n0 + 1) if i not in g.hidden and g.nodes[i - 1]['k'] not in ('in', 'k')]
        outs = [i for i in cand if i not in used] + [i for i in cand if i in used and rng.random() < .15]
        rng.shuffle(outs)
        outs = [i for i in outs if g.w(i) <= 32][:3]
        if not outs or max(w for w, s in g.ws) > 64 or any(not g.cone[i - 1] for i in outs):
            continue
        if max(g.lat[i - 1] for i in outs) < 1:
            continue
        d['snk'] = []
        for j, i in enumerate(outs):
            wh = g.ctl(4, cond=lambda q: bool(g.cone[q - 1]) and g.nodes[q - 1]['k'] not in ('in', 'k')) if rng.random() < .35 else None
            if any(s['when'] == wh for s in d['snk']):
                wh = None
            d['snk'].append(dict(name='z%d' % j, node=i, when=wh or 0))
        if stateful and rng.random() < .3:
            ad = g.ctl(10, signed=0, cond=lambda q: g.nodes[q - 1]['k'] != 'k')
            da = g.pick(20, cond=lambda q: bool(g.cone[q - 1]) and g.nodes[q - 1]['k'] != 'k')
            if ad and da:
                d['snk'].append(dict(name='w0', node=da, when=(g.ctl(4) or 0) if rng.random() < .6 else 0, wram=ad))
        live, st = set(), [x for s in d['snk'] for x in (s['node'], s['when'], s.get('wram', 0)) if x]
        while st:
            i = st.pop()
            if i not in live:
                live.add(i)
                st += list(uses(g.nodes[i - 1]))
        if not set(range(1, ns + npar + 1)) <= live or not set(g.rams) <= live:
            continue
        # a condition or a sink that reads an input directly has no stage of its own
        if any(g.nodes[s['node'] - 1]['k'] in ('in', 'k') or (s['when'] and g.nodes[s['when'] - 1]['k'] in ('in', 'k')) for s in d['snk']):
            continue
        d['nodes'], d['ws'] = g.nodes, g.ws
        break
    # memories: one per source, one per sink; contents
    mem = []
    for I in d['ins'][:ns]:
        mem.append(dict(w=I['w'], kind='ram', init=[rnd(rng, I['w']) for _ in range(A)]))
        I['mem'] = len(mem)
    for s in d['snk']:
        w = d['ws'][s['node'] - 1][0]
        mem.append(dict(w=w, kind='ram', init=[rnd(rng, w) for _ in range(A)]))
        s['mem'] = len(mem)
        s['imm'] = s['fifo'] = 0
    for I in d['ins'][:ns]:
        I['fifo'] = 0
        if rng.random() < .25:
            mem.append(dict(w=I['w'], kind='fin', init=[], aw=rng.choice((2, 3, 4)), gap=rng.choice((0, 0, 3, 9))))
            I['fifo'] = len(mem)
    for s in d['snk']:
        if 'wram' not in s and rng.random() < .2:
            mem.append(dict(w=d['ws'][s['node'] - 1][0], kind='fout', init=[], aw=rng.choice((2, 3, 4)), gap=rng.choice((0, 0, 3, 9))))
            s['fifo'] = len(mem)
        elif 'wram' not in s and rng.random() < .2:
            mem.append(dict(w=d['ws'][s['node'] - 1][0], kind='imm', init=[]))
            s['imm'] = len(mem)
    d['mem'], d['A'] = mem, A
    d['mode'] = rng.choice(('join', 'join', 'join', 'overlap'))
    d['stall'] = rng.choice((0, 0, 2, 4, 6))
    d['sw'] = sw
    d['fsmod'] = int(rng.random() < .1)
    d['runs'] = []
    for r in range(rng.choice((1, 2, 2, 3))):
        n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12))
        R = dict(n=n, src=[], par=[], snk=[])
        for j, I in enumerate(d['ins'][:ns]):
            c = rng.random()
            if I['fifo'] and c < .6:
                R['src'].append(dict(kind='fifo', mem=I['fifo']))
                mem[I['fifo'] - 1]['init'] += [rnd(rng, I['w']) for _ in range(n)]
            elif c < .9 or j == 0 or R['src'][0]['kind'] == 'empty':
                kind = rng.choice(('ram', 'ram', 'pat', 'dim', 'mpat'))
                p, sh, od = pats(rng, n, A, kind)
                R['src'].append(dict(kind=kind, mem=I['mem'], p=p, sh=sh, od=od))
            else:
                R['src'].append(dict(kind='empty', mem=0, v=rnd(rng, min(I['w'], 30))))
        for I in d['ins'][ns:]:
            w = I['w'] - 1 if I['s'] and I['w'] > 1 else I['w']
            v = rng.randrange(1, min(1 << w, 12)) if w > 1 else rng.randrange(2)
            R['par'].append(v)
        for s in d['snk']:
            if 'wram' in s:
                R['snk'].append(dict(kind='wram', mem=s['mem'], p=[], size=0))
                continue
            c = rng.random()
            if s['fifo'] and c < .6:
                R['snk'].append(dict(kind='fifo', mem=s['fifo'], p=[], size=n if rng.random() < .7 else rng.randrange(1, n + 1)))
            elif s['imm'] and c < .6:
                R['snk'].append(dict(kind='imm', mem=s['imm'], p=[], size=n if rng.random() < .6 else rng.randrange(1, n + 1)))
            elif c > .92:
                R['snk'].append(dict(kind='none', mem=0, p=[], size=0))
            else:
                kind = rng.choice(('ram', 'ram', 'pat', 'dim', 'mpat'))
                q = n if rng.random() < .7 else rng.randrange(1, n + 1)
                p, sh, od = pats(rng, q, A, kind)
                R['snk'].append(dict(kind=kind, mem=s['mem'], p=p, sh=sh, od=od, size=q))
        d['runs'].append(R)
    return d


def uses(nd):
    u = set(nd['a'])
    if nd['k'] in ('sacc', 'ctr'):
        u |= set(x for x in (nd['n'][1], nd['n'][2], nd['n'][4]) if x)
    elif nd['k'] in ('rb', 'sp') and nd['n'][1]:
        u.add(nd['n'][1])
    return u


def extra(d, k):
    """construction of the stateful operators; spec-only nodes have no object"""
    index = {}

    def f(D, i, nd, a, objs):
        import veriloggen.core.vtypes as vt
        if nd.get('hw', 1) == 0:
            objs.append(None)
            return True
        kk = nd['k']
        ob = lambda x: objs[x - 1] if x else None
        if kk == 'sacc':
            if 'of' in nd:
                return True     # made together with its accumulator
            size, en, rst, iv, sz = nd['n']
            kw = dict()
            if size or sz:
                kw['size'] = ob(sz) if sz else size
            if iv:
                kw['interval'] = iv
            if en:
                kw['enable'] = ob(en)
            if nd['ur']:
                kw['reset'] = ob(nd['ur'])
            if nd['op'] == 'pulse':
                size = kw.pop('size')
                objs.append(D.Pulse(size, dependency=a[0], **kw))
                return True
            if nd['init']:
                kw['initval'] = nd['init']
            if not nd['dflt']:
                kw.update(width=nd['w'], signed=bool(nd['s']))
            n = {'+': 'ReduceAdd', '-': 'ReduceSub', '*': 'ReduceMul', 'max': 'ReduceMax', 'min': 'ReduceMin'}.get(nd['op'])
            v = 'Valid' if nd.get('valid') else ''
            if nd.get('arg'):
                n = n.replace('Reduce', 'ReduceArg')
            if n is None:
                o = getattr(D, 'ReduceCustom' + v)({'&': vt.And, '|': vt.Or, '^': vt.Xor}[nd['op']], a[0], **kw)
            else:
                o = getattr(D, n + v)(a[0], **kw)
            o = o if isinstance(o, tuple) else (o,)
            if nd.get('arg'):
                index[i + 1] = o[0]
                o = o[1:]
            objs += list(o)
            return True
        if kk == 'arg':
            objs.append(index[nd['of']])
            return True
        if kk == 'ctr':
            size, en, rst, iv, _, i0, step, off = nd['n']
            kw = dict(dependency=a[0])
            if size:
                kw['size'] = size
            if iv:
                kw['interval'] = iv
            if en:
                kw['enable'] = ob(en)
            if nd['ur']:
                kw['reset'] = ob(nd['ur'])
            if i0:
                kw['initval'] = i0
            if off >= 0:
                kw['offset'] = off
            if step != 1:
                kw['step'] = step
            if nd['w'] != 32:
                kw['width'] = nd['w']
            objs.append(D.Counter(**kw))
            return True
        if kk == 'pred':
            objs.append((D.Reg if nd['reg'] else D.Predicate)(*a))
            return True
        if kk == 'rb':
            b = D.RingBuffer(a[0], nd['n'][0], **(dict(enable=ob(nd['n'][1])) if nd['n'][1] else {}))
            objs.append(b.read(a[1]))
            return True
        if kk == 'sp':
            b = D.Scratchpad(a[0], a[1], nd['n'][0], **(dict(when=ob(nd['n'][1])) if nd['n'][1] else {}))
            objs.append(b.read(a[2]))
            return True
        if kk == 'rram':
            objs.append(D.read_RAM('r%d' % (i + 1), a[0], **dict(([('when', a[1])] if len(a) > 1 else []) +
                                                                [('datawidth', nd['w']), ('signed', bool(nd['s']))])))
            return True
        return False
    return f


def add_stream(m, clk, rst, d, k):
    """the stream, its memories, and the text of the threads that run it"""
    import veriloggen.thread as vthread
    import veriloggen.types.util as util
    env = {}
    kw = dict(datawidth=d['sw'])
    if d['fsmod']:
        kw['fsm_as_module'] = True
    S = vthread.Stream(m, d['name'], clk, rst, **kw)
    objs = []

    def var(I):
        o = dict() if I['dflt'] else dict(datawidth=I['w'], signed=bool(I['s']))
        return S.source(I['name'], **o) if I['src'] else S.parameter(I['name'], **o)
    build_ops(S, d, objs, var, extra(d, k))
    for s in d['snk']:
        w = dict(when=objs[s['when'] - 1]) if s['when'] else {}
        if 'wram' in s:
            S.write_RAM(s['name'], objs[s['wram'] - 1], objs[s['node'] - 1], **w)
        else:
            S.sink(objs[s['node'] - 1], s['name'], **w)
    if d['stall']:
        util.add_disable_cond(S.oready, 1, m.Input('stall%d' % k))
    aw = (d['A'] - 1).bit_length()
    env['S%d' % k] = S
    for x, M in enumerate(d['mem']):
        n = 'm%d_%d' % (k, x + 1)
        if M['kind'] == 'ram':
            env[n] = vthread.RAM(m, n, clk, rst, M['w'], aw, numports=1, initvals=list(M['init']))
        elif M['kind'] in ('fin', 'fout'):
            env[n] = vthread.FIFO(m, n, clk, rst, M['w'], M['aw'])
            if M['kind'] == 'fin' and M['init']:
                pad = M['init'] + [0] * (2 ** max(1, (len(M['init']) - 1).bit_length()) - len(M['init']))
                env['i' + n] = vthread.RAM(m, 'i' + n, clk, rst, M['w'], (len(pad) - 1).bit_length(), initvals=pad)
    for i, nd in enumerate(d['nodes']):
        if nd['k'] == 'rram':
            n = 't%d_%d' % (k, i + 1)
            env[n] = vthread.RAM(m, n, clk, rst, nd['w'], nd['n'][0],
                                 initvals=[sum(b << j for j, b in enumerate(t)) for t in nd['t']])
    L = []
    e = L.append
    dumps = sorted(set(s['mem'] for s in d['snk']))
    ths = ['main%d' % k]
    done = []
    for x, M in enumerate(d['mem']):
        n = 'm%d_%d' % (k, x + 1)
        if M['kind'] == 'fin' and M['init']:
            ths.append('fin%s' % n)
            e('def fin%s():' % n)
            e('    for i in range(%d):' % len(M['init']))
            e('        v = i%s.read(i)' % n)
            if M['gap']:
                e('        if (i * 5 + %d) %% 3 == 0:' % (x % 3))
                e('            for w in range(%d):' % M['gap'])
                e('                pass')
            e('        %s.enq(v)' % n)
        elif M['kind'] == 'fout':
            ths.append('fout%s' % n)
            e('def fout%s():' % n)
            e('    i = 0')
            e('    while True:')
            if M['gap']:
                e('        if (i * 5 + %d) %% 3 == 0:' % (x % 3))
                e('            for w in range(%d):' % M['gap'])
                e('                pass')
            e('        v = %s.deq()' % n)
            e("        print('F %d %d %%b' %% v)" % (k, x + 1))
            e('        i += 1')
    e('def main%d():' % k)
    for r, R in enumerate(d['runs']):
        c = []
        for j, s in enumerate(R['src']):
            I = d['ins'][j]
            mn = 'm%d_%d' % (k, s['mem'])
            if s['kind'] == 'ram':
                p = s['p'][0]
                c.append("S%d.set_source('%s', %s, %d, %d%s)" % (k, I['name'], mn, p[0], p[1][0], '' if p[1][1] == 1 else ', %d' % p[1][1]))
            elif s['kind'] == 'pat':
                p = s['p'][0]
                c.append("S%d.set_source_pattern('%s', %s, %d, %r)" % (k, I['name'], mn, p[0], tuple(map(tuple, p[1:]))))
            elif s['kind'] == 'dim':
                p = s['p'][0]
                c.append("S%d.set_source_multidim('%s', %s, %d, %r, %r)" % (k, I['name'], mn, p[0], s['sh'], s['od']))
            elif s['kind'] == 'mpat':
                c.append("S%d.set_source_multipattern('%s', %s, %r, %r)" % (k, I['name'], mn, [p[0] for p in s['p']], [tuple(map(tuple, p[1:])) for p in s['p']]))
            elif s['kind'] == 'fifo':
                c.append("S%d.set_source_fifo('%s', %s, %d)" % (k, I['name'], mn, R['n']))
            else:
                c.append("S%d.set_source_empty('%s', %d)" % (k, I['name'], s['v']))
        for I, v in zip([I for I in d['ins'] if not I['src']], R['par']):
            c.append("S%d.set_parameter('%s', %d)" % (k, I['name'], v))
        for i, nd in enumerate(d['nodes']):
            if nd['k'] == 'rram':
                c.append("S%d.set_read_RAM('r%d', t%d_%d)" % (k, i + 1, k, i + 1))
        for s, q in zip(d['snk'], R['snk']):
            mn = 'm%d_%d' % (k, q['mem'])
            if q['kind'] == 'wram':
                c.append("S%d.set_write_RAM('%s', %s)" % (k, s['name'], mn))
            elif q['kind'] == 'ram':
                p = q['p'][0]
                c.append("S%d.set_sink('%s', %s, %d, %d%s)" % (k, s['name'], mn, p[0], q['size'], '' if p[1][1] == 1 else ', %d' % p[1][1]))
            elif q['kind'] == 'pat':
                p = q['p'][0]
                c.append("S%d.set_sink_pattern('%s', %s, %d, %r)" % (k, s['name'], mn, p[0], tuple(map(tuple, p[1:]))))
            elif q['kind'] == 'dim':
                p = q['p'][0]
                c.append("S%d.set_sink_multidim('%s', %s, %d, %r, %r)" % (k, s['name'], mn, p[0], q['sh'], q['od']))
            elif q['kind'] == 'mpat':
                c.append("S%d.set_sink_multipattern('%s', %s, %r, %r)" % (k, s['name'], mn, [p[0] for p in q['p']], [tuple(map(tuple, p[1:])) for p in q['p']]))
            elif q['kind'] == 'fifo':
                c.append("S%d.set_sink_fifo('%s', %s, %d)" % (k, s['name'], mn, q['size']))
            elif q['kind'] == 'imm':
                c.append("S%d.set_sink_immediate('%s', %d)" % (k, s['name'], q['size']))
            else:
                c.append("S%d.set_sink_empty('%s')" % (k, s['name']))
        last = r + 1 == len(d['runs'])
        c.append('S%d.run()' % k)
        if d['mode'] == 'join' or last:
            c.append('S%d.join()' % k)
            for s, q in zip(d['snk'], R['snk']):
                if q['kind'] == 'imm':
                    c.append("v = S%d.read_sink('%s')" % (k, s['name']))
                    c.append("print('I %d %d %d %%b' %% v)" % (k, r, q['mem']))
            for x in dumps:
                c.append('for i in range(%d):' % d['A'])
                c.append('    v = m%d_%d.read(i)' % (k, x))
                c.append("    print('D %d %d %d %%b' %% v)" % (k, r, x))
        else:
            c.append('S%d.source_join()' % k)
        L += ['    ' + y for y in c]
    e("    print('E %d')" % k)
    return env, L, ths


def build(ds):
    """one module with several independent streams"""
    import veriloggen as vg
    import veriloggen.thread as vthread
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    env, L, ths = {}, [], []
    for k, d in enumerate(ds):
        a, b, c = add_stream(m, clk, rst, d, k)
        env.update(a)
        L += b
        ths += c
    L += ['', 'import veriloggen.thread as vthread', 'def threads(m, clk, rst):']
    for t in ths:
        L.append("    vthread.Thread(m, 'th_%s', clk, rst, %s).start()" % (t, t))
    load_src('\n'.join(L) + '\n', **env).threads(m, clk, rst)
    return m.to_verilog()


def sim(ds):
    text = build(ds)
    T = 0
    for d in ds:
        c = 100
        for R in d['runs']:
            c += 120 + len(d['snk']) * d['A'] * 8 + (R['n'] + 40) * (4 + 8 * sum(1 for nd in d['nodes'] if nd['k'] == 'sacc' and nd.get('op') == '*'))
        c *= {0: 1, 2: 2, 4: 2, 6: 4}[d['stall']]
        c += sum(len(M['init']) * (12 + M['gap'] * 3) for M in d['mem'] if M['kind'] in ('fin',)) + 500
        c += sum(30 * (12 + M['gap'] * 3) for M in d['mem'] if M['kind'] in ('fout',))
        T = max(T, c)
    conn = ''.join(', .stall%d(st%d)' % (k, k) for k, d in enumerate(ds) if d['stall'])
    tbt = ['module tb; reg CLK = 0, RST = 1; always #5 CLK = ~CLK; integer seed = %d; integer cyc = 0;' % ds[0]['seed']]
    for k in range(len(ds)):
        tbt.append('reg st%d = 0; always @(posedge CLK) st%d <= (($random(seed) & 7) < %d);' % (k, k, ds[k]['stall']))
    tbt += ['top uut(.CLK(CLK), .RST(RST)%s);' % conn, 'always @(posedge CLK) begin cyc <= cyc + 1; if(cyc == 5) RST <= 0; end',
            'initial #%d $finish; endmodule' % (T * 10)]
    out = simulate([text, '\n'.join(tbt)], timeout=200)
    return [strace(d, k, out) for k, d in enumerate(ds)]


def strace(d, k, out):
    A = d['A']
    idx, vals = {}, []

    def word(x, w):
        x = [int(c) if c in '01' else 2 for c in reversed(x)]
        x = (x + [0] * w)[:w]
        t = tuple(x)
        if t not in idx:
            vals.append(x)
            idx[t] = len(vals)
        return idx[t]
    dump = {}
    fifo = {}
    end = False
    for line in out:
        f = line.split()
        if len(f) < 2 or f[0] not in 'DFIE' or f[1] != str(k):
            continue
        if f[0] in 'DI':
            dump.setdefault((int(f[2]), int(f[3])), []).append(word(f[4], d['mem'][int(f[3]) - 1]['w']))
        elif f[0] == 'F':
            fifo.setdefault(int(f[2]), []).append(word(f[3], d['mem'][int(f[2]) - 1]['w']))
        else:
            end = True
    ns = sum(1 for I in d['ins'] if I['src'])
    runs = []
    for r, R in enumerate(d['runs']):
        src = [[{'fifo': 'fifo', 'empty': 'empty'}.get(s['kind'], 'ram'), s['mem'], s.get('p', []),
                bits(s.get('v', 0), d['ins'][j]['w'])] for j, s in enumerate(R['src'])]
        par = [bits(v, I['w']) for v, I in zip(R['par'], [I for I in d['ins'] if not I['src']])]
        snk = [[s['node'], s['when'], q['kind'] if q['kind'] in ('wram', 'fifo', 'imm', 'none') else 'ram', q['mem'],
                s['wram'] if q['kind'] == 'wram' else q['p'], q['size']] for s, q in zip(d['snk'], R['snk'])]
        dm = [[x, w] for (rr, x), w in sorted(dump.items()) if rr == r]
        if r + 1 == len(d['runs']):
            for x, M in enumerate(d['mem']):
                if M['kind'] == 'fout':
                    dm.append([x + 1, fifo.get(x + 1, [])])
        runs.append(dict(n=R['n'], src=src, par=par, snk=snk, dump=dm))
    nodes = [dict((a, b) for a, b in nd.items() if a in ('k', 'a', 'n', 'w', 's', 'b', 'e', 'op', 'i', 't', 'c')) for nd in d['nodes']]
    return dict(nodes=nodes, mem=[[bits(v, M['w']) for v in M['init']] if M['kind'] != 'imm' else [[]] for M in d['mem']],
                width=[M['w'] for M in d['mem']], runs=runs, vals=vals, ended=int(end), strict=int(bool(d.get('strict'))))


def srun(ds):
    res = [None] * len(ds)
    good = []
    for i, d in enumerate(ds):
        try:
            build([d])
            good.append(i)
        except Exception as e:
            res[i] = ('exc', '%s: %s' % (type(e).__name__, e))
    for i in good:
        pass
    if good:
        try:
            for i, t in zip(good, sim([ds[i] for i in good])):
                res[i] = ('ok', t)
        except Exception as e:
            for i in good:
                try:
                    res[i] = ('ok', sim([ds[i]])[0])
                except Exception as e:
                    res[i] = ('sim' if isinstance(e, SimError) else 'exc', '%s: %s' % (type(e).__name__, str(e)[:600]))
    return res


def sbrief(d):
    return dict(name=d['name'], seed=d['seed'], nodes=[(i + 1, n['k'], n['a'], n['n'], n.get('op'), n.get('init'), d['ws'][i]) for i, n in enumerate(d['nodes'])],
                ins=d['ins'], snk=d['snk'], runs=d['runs'], mode=d['mode'], stall=d['stall'], sw=d['sw'],
                mem=[(M['kind'], M['w'], M['init'][:40]) for M in d['mem']])


def short_fifo():
    """the known deviation: a condition that selects fewer elements of a run than the FIFO sink asks for"""
    import random
    nodes = [node('in', n=[1], w=8, s=0), node('in', n=[2], w=1, s=0, hw=0), dict(node('k', w=4, s=1), b=bits(5, 4), v=5),
             node('+', [1, 3]), node('>', [4, 3])]
    v = [0, 0, 0, 9, 0, 9, 0, 9]
    return dict(layer='strm', name='short', seed=1, strict=1, ins=[dict(name='x0', w=8, s=0, src=True, dflt=0, mem=1, fifo=0)],
                snk=[dict(name='z0', node=4, when=5, mem=2, imm=0, fifo=3)], nodes=nodes, ws=[(8, 0), (1, 0), (4, 1), (8, 0), (1, 0)],
                mem=[dict(w=8, kind='ram', init=v * 4), dict(w=8, kind='ram', init=[0] * 32), dict(w=8, kind='fout', init=[], aw=4, gap=0)],
                A=32, mode='join', stall=0, sw=8, fsmod=0,
                runs=[dict(n=8, src=[dict(kind='ram', mem=1, p=[[0, [8, 1]]])], par=[], snk=[dict(kind='fifo', mem=3, p=[], size=8)])])


def check(pid, stateful, n):
    chk = Check(pid)
    model_check(chk, 'StrmMC', 'StrmMC.cfg')
    if not chk.quick():
        model_check(chk, 'StrmMC', 'StrmMC_deep.cfg')
    N = chk.n(*n)
    D = [sgen(chk.rng, k, stateful) for k in range(N)]
    B = [D[i:i + 4] for i in range(0, N, 4)]
    if not stateful:
        B.append([short_fifo()])
    T, idx = [], []
    for b, r in zip(B, pmap(srun, B, chunksize=1)):
        if r[0] != 'ok':
            chk.violation('bundle:%s' % r[0], r[1], dict(designs=[sbrief(d) for d in b]))
            continue
        for d, x in zip(b, r[1]):
            if x[0] != 'ok':
                chk.violation('%s:%s' % (x[0], x[1].split(':')[0]), x[1], sbrief(d))
            elif not x[1]['ended']:
                chk.violation('hang:%s' % feat(d), 'the thread did not return from join', sbrief(d))
            else:
                T.append(x[1])
                idx.append(d)
    for (i, ok, line, clause, det) in validate(chk, 'StrmTrace', 'StrmTrace.cfg', T, jobs=8):
        if not ok:
            d = idx[i]
            mm = re.search(r'"mem", (\d+)', det)
            x = int(mm.group(1)) if mm else 0
            s = [s for s in d['snk'] if x in (s['mem'], s['fifo'], s['imm'])]
            q = d['runs'][line - 1]['snk'][d['snk'].index(s[0])]['kind'] if s else ''
            chk.violation('fifo-when-short:' + clause if d.get('strict') else '%s:%s:%s' % (clause, d['nodes'][s[0]['node'] - 1]['k'] + d['nodes'][s[0]['node'] - 1].get('op', '') if s else '', q), det,
                          dict(design=sbrief(d), run=line))
    chk.extra.update(streams=N, runs=sum(len(d['runs']) for d in D), elements=sum(R['n'] for d in D for R in d['runs']))
    if T:
        chk.sample(T[0]['runs'][:1])
    chk.assumptions = ['all sources of a run deliver the same number of elements', 'divisors are not zero']
    return chk.finish()


def feat(d):
    return ','.join(sorted(set([s['kind'] for R in d['runs'] for s in R['src'] + R['snk']])))
