"""C17: reading Verilog back preserves the design.

Random Verilog modules are written as source text; spec/Vlog.tla gives their meaning.  The source itself,
what the reader makes of it emitted again, and a wrapper around the modules read are simulated and their
outputs checked against the specification; interfaces are compared; emitting what was read again must
give the same text."""
import sys, os
from vlib import *
import vloglib as L
from vloglib import V, Mod, txt
from exprlib import bits
import re


def cache_tables():
    """The parser library rebuilds its tables for every file (1 s); keep them per grammar, and keep it quiet."""
    import ply.yacc as y
    try:
        base, cache = y.LRGeneratedTable, {}

        def table(grammar, *a):
            k = tuple(str(p) for p in grammar.Productions)
            if k not in cache:
                cache[k] = base(grammar, *a)
            return cache[k]
        y.LRGeneratedTable = table
        y.PlyLogger.warning = y.PlyLogger.debug = lambda *a, **k: None
    except AttributeError:  # another version of the library: slower only
        pass


cache_tables()


class G(object):
    def __init__(self, rng, feats=None):
        self.r = rng
        self.n = 0
        self.mods = []

    def uid(self, p='n'):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- constants and expressions
    def K(self, v, w=None, s=None):
        r = self.r
        if w is None:
            return ['k', 32, 1, str(v), v]
        v &= (1 << w) - 1
        base = r.choice('hdbo')
        t = {'h': '%x' % v, 'd': '%d' % v, 'b': bin(v)[2:], 'o': '%o' % v}[base]
        if base == 'b' and r.random() < .3:
            t = t.zfill(w)
        if base == 'h' and r.random() < .3:
            t = t.upper()
        if len(t) > 2 and r.random() < .3:
            t = t[:1] + '_' + t[1:]
        s = int(r.random() < .25) if s is None else s
        return ['k', w, s, "%d'%s%s%s" % (w, 's' if s else '', base, t), v]

    def const(self):
        r = self.r
        k = r.random()
        if k < .5:
            return self.K(r.choice([0, 1, 2, 3, 5, 7, 8, 100, 255, r.randrange(300)]))
        if k < .6:
            v = r.randrange(1 << 16)
            b = r.choice('hbod')
            return ['k', 32, 0, "'%s%s" % (b, {'h': '%x' % v, 'b': bin(v)[2:], 'o': '%o' % v, 'd': '%d' % v}[b]), v]
        w = r.choice([1, 2, 3, 4, 5, 8, 12, 16])
        return self.K(r.randrange(1 << w), w)

    def ref(self, x):
        """x: V, or a ready tree"""
        return ['v', x.name] if isinstance(x, V) else x

    def leaf(self, av):
        r = self.r
        if r.random() < .2 or not av:
            return self.const()
        x = r.choice(av)
        if not isinstance(x, V):
            return x
        if x.d:
            return ['mem', x.name, self.idx(av, x.d)]
        k = r.random()
        if x.kind == 'integer' or k < .6 or x.wmin < 2:
            return ['v', x.name]
        if k < .75:
            if x.lsb == 0 and isinstance(x.w, int) and x.w in (2, 4, 8, 16) and not x.up and r.random() < .5:
                return ['bit', x, self.idx(av, x.w)]
            return ['bit', x, self.K(r.randrange(x.wmin))]
        lo = r.randrange(x.wmin)
        hi = r.randrange(lo, x.wmin)
        return ['sl', x, hi, lo]

    def idx(self, av, n):
        """an expression with exactly log2(n) bits, unsigned"""
        r = self.r
        b = n.bit_length() - 1
        c = [x for x in av if isinstance(x, V) and not x.d and x.kind != 'integer' and x.wmin >= max(b, 2)]
        ex = [x for x in av if isinstance(x, V) and not x.d and x.kind != 'integer' and x.w == b and not x.s]
        if b and ex and r.random() < .5:
            return ['v', r.choice(ex).name]
        if b and c and r.random() < .8:
            x = r.choice(c)
            lo = r.randrange(x.wmin - b + 1)
            return ['sl', x, lo + b - 1, lo]
        return self.K(r.randrange(n))

    def sized(self, av, d):
        e = self.ex(av, d)
        return e if not unsz(e) else self.K(self.r.randrange(16), 4, 0)

    def ex(self, av, d, fn=None):
        r = self.r
        if d <= 0:
            return self.leaf(av)
        k = r.random()
        fns = fn or []
        if fns and k < .15:
            f = r.choice(fns)
            return ['call', f['name'], [self.ex(av, d - 1) for _ in f['args']]]
        if k < .55:
            op = r.choice(L.BIN + ['+', '-', '+', '-', '*'])
            if op in ('<<', '>>', '>>>'):
                b = self.K(r.randrange(5)) if r.random() < .5 else ['sl'] + self.small(av) if self.small_ok(av) else self.K(2)
                return [op, self.ex(av, d - 1, fns), b]
            return [op, self.ex(av, d - 1, fns), self.ex(av, d - 1, fns)]
        if k < .57:
            return [r.choice('/%'), self.ex(av, d - 1, fns), r.choice([self.K(r.randrange(1, 9)), self.K(r.randrange(1, 8), 4, 0)])]
        if k < .59:
            return ['**', self.ex(av, d - 1, fns), self.K(r.randrange(4))]
        if k < .70:
            return [r.choice(sorted(L.UN)), self.ex(av, d - 1, fns)]
        if k < .80:
            return ['?', self.ex(av, d - 1, fns), self.ex(av, d - 1, fns), self.ex(av, d - 1, fns)]
        if k < .88:
            return ['cat', [self.sized(av, d - 1) for _ in range(r.choice([1, 2, 2, 3]))]]
        if k < .92:
            return ['rep', r.choice([1, 2, 3]), self.sized(av, d - 1)]
        if k < .96:
            return [r.choice(['$s', '$u']), self.ex(av, d - 1, fns)]
        return self.leaf(av)

    def small_ok(self, av):
        return [x for x in av if isinstance(x, V) and not x.d and x.kind != 'integer' and x.wmin >= 2]

    def small(self, av):
        x = self.r.choice(self.small_ok(av))
        lo = self.r.randrange(x.wmin - 1)
        return [x, lo + 1, lo]

    # ---- statements
    def target(self, x, av, blocking):
        """an assignment target within the owned variable(s)"""
        r = self.r
        if isinstance(x, list):
            return ['cat', [['v', v.name] for v in x]]
        if x.d:
            return ['mem', x.name, self.idx(av, x.d)]
        k = r.random()
        if blocking or k < .7 or x.wmin < 2 or x.kind == 'integer':
            return ['v', x.name]
        if k < .85:
            if x.lsb == 0 and isinstance(x.w, int) and x.w in (2, 4, 8, 16) and not x.up and r.random() < .5:
                return ['bit', x, self.idx(av, x.w)]
            return ['bit', x, self.K(r.randrange(x.wmin))]
        lo = r.randrange(x.wmin)
        return ['sl', x, r.randrange(lo, x.wmin), lo]

    def stmts(self, own, av, d, kind, ctx, n=None):
        return [self.stmt(own, av, d, kind, ctx) for _ in range(n or self.r.choice([1, 1, 2, 3]))]

    def stmt(self, own, av, d, kind, ctx):
        r = self.r
        k = r.random()
        if d < 3 and r.random() < .02:
            return ['null']
        fns = ctx['fns']
        if d <= 0 or k < .45:
            x = r.choice(own)
            if kind == 'nb' and len(own) > 1 and r.random() < .12:
                ys = [v for v in own if not v.d and v.kind != 'integer']
                if len(ys) > 1:
                    x = r.sample(ys, 2)
            e = self.ex(av, r.choice([1, 2, 2, 3]), fns)
            return [kind, self.target(x, av, kind == 'bl' and ctx.get('whole')), e, kind == 'nb' and bool(ctx.get('dly'))]
        if k < .68:
            return ['if', self.ex(av, 2, fns), self.stmts(own, av, d - 1, kind, ctx),
                    self.stmts(own, av, d - 1, kind, ctx) if r.random() < .6 else []]
        if k < .86:
            return self.case(own, av, d, kind, ctx)
        if k < .90:
            return ['blk', self.stmts(own, av, d - 1, kind, ctx)]
        if k < .94 and ctx.get('tasks') and kind == 'nb':
            f = r.choice(ctx['tasks'])
            if all(any(o is y for y in own) for o in f['own']):
                return ['task', f['name'], [self.ex(av, 1, fns) for _ in f['args']]]
        if ctx.get('iv') and not ctx.get('inloop') and k >= .94:
            return self.loop(own, av, d, kind, ctx)
        return self.stmt(own, av, d - 1, kind, ctx)

    def loop(self, own, av, d, kind, ctx):
        r = self.r
        i = ctx['iv']
        I = ['v', i.name]
        av2 = av + [i, ['bit', i, self.K(0)]]
        c2 = dict(ctx, inloop=True)
        # a target indexed by the loop variable
        ss = self.stmts(own, av2, 1, kind, c2, r.choice([1, 2]))
        xs = [x for x in own if (x.d or (isinstance(x.w, int) and x.w > 1 and x.lsb == 0 and not x.up)) and x.kind != 'integer']
        lo = r.randrange(2)
        n = r.randrange(lo, 4)
        if xs and r.random() < .7:
            x = r.choice(xs)
            m = x.d or x.w
            n = min(m, 4)
            ss.append([kind, ['mem', x.name, I] if x.d else ['bit', x, I], self.ex(av2, 1), False])
            lo = min(lo, n)
        k = r.random()
        if k < .65:
            if r.random() < .8:
                return ['for', ['bl', I, self.K(lo)], ['<', I, self.K(n)], ['bl', I, ['+', I, self.K(1)]], ss]
            return ['for', ['bl', I, self.K(n - 1)], ['>=', I, self.K(lo)], ['bl', I, ['-', I, self.K(1)]], ss]
        if k < .9 and ctx.get('while'):
            return ['blk', [['bl', I, self.K(lo)], ['while', ['<', I, self.K(n)], ss + [['bl', I, ['+', I, self.K(1)]]]]]]
        return ['for', ['bl', I, self.K(lo)], ['!=', I, self.K(n)], ['bl', I, ['+', I, self.K(1)]], ss]

    def case(self, own, av, d, kind, ctx):
        r = self.r
        c = [x for x in av if isinstance(x, V) and not x.d and x.kind != 'integer' and x.wmin >= 2]
        arms = []
        kw = 'case'
        if c and r.random() < .35:       # casex with wildcards, all of one width
            x = r.choice(c)
            lo = r.randrange(x.wmin - 1)
            w = min(x.wmin - lo, r.choice([2, 3, 4]))
            e = ['sl', x, lo + w - 1, lo]
            kw = 'casex'
            for _ in range(r.choice([1, 2, 3])):
                labs = []
                for _ in range(r.choice([1, 1, 2])):
                    b = [r.choice([0, 1, 2]) for _ in range(w)]
                    labs.append(['kx', w, b, "%d'b%s" % (w, ''.join('01x'[q] for q in reversed(b)))])
                arms.append([labs, self.stmts(own, av, d - 1, kind, ctx)])
        else:
            e = self.ex(av, r.choice([0, 1, 2]), ctx['fns'])
            for _ in range(r.choice([1, 2, 3, 4])):
                labs = [self.const() if r.random() < .85 else self.ex(av, 1) for _ in range(r.choice([1, 1, 2, 3]))]
                arms.append([labs, self.stmts(own, av, d - 1, kind, ctx)])
        if r.random() < .6:
            arms.insert(r.choice([len(arms), len(arms), r.randrange(len(arms) + 1)]), [[], self.stmts(own, av, d - 1, kind, ctx)])
        return ['case', e, arms, kw]

    # ---- declarations
    def width(self, m, conly=False):
        r = self.r
        ps = [p[0] for p in m.params + m.locals if p[0][0] in 'WM']
        if ps and not conly and r.random() < .4:
            return ('p', r.choice(ps), r.choice([0, 0, 1, 2]))
        return r.choice([1, 1, 2, 3, 4, 5, 8, 8, 12, 16, 20, 33])

    def var(self, m, kind, name=None, conly=False, mem=False):
        r = self.r
        w = self.width(m, conly)
        v = V(name or self.uid({'reg': 'r', 'wire': 'w'}.get(kind, 'p')), kind, w, s=int(r.random() < .3))
        if isinstance(w, int) and w > 1:
            if r.random() < .15:
                v.lsb = r.randrange(1, 4)
            elif r.random() < .2:
                v.up = True
        if mem:
            v.d = r.choice([2, 4, 8])
            v.lsb = 0
            v.up = r.random() < .3
        return v

    def function(self, m, av_params):
        r = self.r
        f = dict(name=self.uid('f'))
        f['ret'] = self.var(m, 'ret', name='ret ' + f['name'])
        f['ret'].s = 0      # pyverilog does not parse signed functions
        f['ret'].lsb = 0
        f['args'] = [self.var(m, 'reg', self.uid('a')) for _ in range(r.choice([1, 2, 2, 3]))]
        f['vars'] = [self.var(m, 'reg', self.uid('t')) for _ in range(r.choice([0, 0, 1]))]
        iv = None
        if r.random() < .5:
            iv = V(self.uid('i'), 'integer', 32, 1)
            f['vars'].append(iv)
        av = f['args'] + av_params
        b = []
        for t in f['vars']:
            if t is not iv:
                b.append(['bl', ['v', t.name], self.ex(av, 2)])
                av = av + [t]
        R = V(f['name'], 'reg', f['ret'].w, f['ret'].s, wmin=f['ret'].wmin)
        b.append(['bl', ['v', f['name']], self.ex(av, 2)])
        ctx = {'fns': [], 'iv': iv, 'whole': True, 'while': True}
        own = [R] + [t for t in f['vars'] if t is not iv]
        av = av + [R]
        if r.random() < .7:
            b += self.stmts(own, av, 2, 'bl', ctx)
        f['body'] = b
        return f

    def task(self, m, own, av):
        r = self.r
        f = dict(name=self.uid('k'), ret=None, own=own)
        f['args'] = [self.var(m, 'reg', self.uid('a')) for _ in range(r.choice([1, 2]))]
        f['vars'] = []
        iv = None
        if r.random() < .4:
            iv = V(self.uid('i'), 'integer', 32, 1)
            f['vars'].append(iv)
        f['body'] = self.stmts(own, av + f['args'], 2, 'nb', dict(fns=[], iv=iv))
        return f

    def module(self, name, kids, top):
        r = self.r
        m = Mod(name)
        m.style = r.choice(['ansi', 'ansi', 'split', 'oreg'])
        m.pstyle = r.choice(['head', 'head', 'body'])
        m.seqregs = set()
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < .6:
                m.params.append((self.uid('W'), self.K(r.randrange(3, 10)), None, 0))
            else:
                w = r.choice([None, None, 4, 8])
                prev = [p for p in m.params if p[2] is None]
                e = self.K(r.randrange(0, 8))
                if prev and r.random() < .4:
                    e = ['+', ['p', r.choice(prev)[0]], self.K(r.randrange(4))]
                m.params.append((self.uid('P'), e, w, int(bool(w) and r.random() < .4)))
        ws = [p[0] for p in m.params if p[0][0] == 'W']
        for _ in range(r.choice([0, 0, 1, 2])):
            if ws and r.random() < .6:
                m.locals.append((self.uid('M'), ['+', ['p', r.choice(ws)], self.K(r.randrange(3))], None, 0))
            else:
                m.locals.append((self.uid('L'), self.K(r.randrange(32)) if r.random() < .6 else self.K(r.randrange(256), 8, 0), None, 0))
            if m.locals[-1][0][0] == 'L' and r.random() < .4:
                n, e, w, s = m.locals[-1]
                m.locals[-1] = (n, e, r.choice([4, 8]), r.randrange(2))
        for n, e, w, s in m.locals:
            if w is None and e[0] == 'k' and e[1] != 32:       # an untyped parameter takes the type of its value
                m.locals[m.locals.index((n, e, w, s))] = (n, e, 8, 0)
        pars = [['p', p[0]] for p in m.params + m.locals]
        ins = [self.var(m, 'input', self.uid('d')) for _ in range(r.choice([1, 2, 3]))]
        ctl = [V('CLK', 'input', 1), V('RST', 'input', 1)]
        if not top and r.random() < .5:
            ctl.reverse()
        m.ports = [('input', v, False) for v in ctl + ins]
        rst = r.choice([0, 1]) if False else 1
        outs = []
        for _ in range(r.choice([1, 2, 3])):
            v = self.var(m, 'reg' if r.random() < .5 else 'wire', self.uid('q'))
            outs.append(v)
            m.ports.append(('output', v, v.kind == 'reg'))
        if r.random() < .2:
            r.shuffle(m.ports)
        I = m.items
        av = list(ins) + pars          # readable
        regs = [v for v in outs if v.kind == 'reg']
        dinit = {}
        for _ in range(r.choice([0, 1, 2])):
            v = self.var(m, 'reg')
            regs.append(v)
            if r.random() < .3:
                dinit[v.name] = self.K(r.randrange(1 << min(v.wmin, 16)))
                I.append(('rdecl', v, dinit[v.name]))
            else:
                I.append(('decl', v))
        if r.random() < .25:
            vs = [V(self.uid('r'), 'reg', r.choice([1, 4, 8])) for _ in range(2)]
            vs[1].w = vs[0].w
            vs[1].wmin = vs[0].wmin
            regs += vs
            I.append(('decls', vs))
        mems = []
        if r.random() < .4:
            v = self.var(m, 'reg', mem=True)
            mems.append(v)
            I.append(('decl', v))
        iv = V(self.uid('i'), 'integer', 32, 1)
        I.append(('decl', iv))
        av += regs + mems
        fns, tasks = [], []
        for _ in range(r.choice([0, 0, 1, 2])):
            f = self.function(m, pars)
            fns.append(f)
            I.append(('func', f))
        # initial values; the reset assigns the same
        inits = dict((v.name, self.K(r.randrange(1 << min(v.wmin, 16)))) for v in regs)
        inits.update(dinit)
        st = [['bl', ['v', v.name], inits[v.name]] for v in regs if v.name not in dinit]
        for v in mems:
            st.append(['for', ['bl', ['v', iv.name], self.K(0)], ['<', ['v', iv.name], self.K(v.d)],
                       ['bl', ['v', iv.name], ['+', ['v', iv.name], self.K(1)]],
                       [['bl', ['mem', v.name, ['v', iv.name]], ['*', ['v', iv.name], self.K(r.randrange(1, 40))]]]])
        if st:
            I.append(('initial', st))
        # processes: each owns some registers
        owned = regs + mems
        m.seqregs = set(v.name for v in regs)
        r.shuffle(owned)
        groups = []
        while owned:
            k = r.choice([1, 2, 3])
            groups.append(owned[:k])
            owned = owned[k:]
        late = []
        for g in groups:
            if False and r.random() < .25:      # pyverilog does not parse task calls
                f = self.task(m, [r.choice(g)], av)
                tasks.append(f)
                late.append(('taskd', f))
            late.append(('grp', g))
        # combinational part, in dependency order
        comb = []
        for _ in range(r.choice([1, 2, 3, 4])):
            comb += self.combitem(m, av, fns, kids, top)
        w_outs = [v for v in outs if v.kind == 'wire']
        I += comb
        for x in late:
            if x[0] == 'grp':
                I.append(self.process(x[1], av, fns, tasks, inits, iv_for(self, I)))
            else:
                I.append(x)
        for v in w_outs:
            if v.wmin > 2 and v.w == v.wmin and r.random() < .2:
                k = r.randrange(1, v.w)
                I.append(('assign', ['sl', v, k - 1, 0], self.ex(av, 2, fns), False))
                I.append(('assign', ['sl', v, v.w - 1, k], self.ex(av, 2, fns), False))
            else:
                I.append(('assign', ['v', v.name], self.ex(av, r.choice([1, 2, 3]), fns), r.random() < .1))
        return m

    def process(self, own, av, fns, tasks, inits, iv):
        r = self.r
        ctx = {'fns': fns, 'tasks': tasks, 'iv': iv, 'while': True, 'dly': r.random() < .15}
        ss = []
        if r.random() < .25 and iv is not None:
            pass
        body = ss + self.stmts(own, av, 3, 'nb', ctx)
        k = r.random()
        rs = [['nb', ['v', v.name], inits[v.name], False] for v in own if not v.d]
        if k < .45 or not rs:
            if rs and r.random() < .8:
                body = [['if', ['v', 'RST'] if r.random() < .6 else ['==', ['v', 'RST'], self.K(1)], rs, body]]
            return ('proc', [('CLK', 1)], body)
        if k < .65:
            return ('proc', [('CLK', 1), ('RST', 1)], [['if', ['v', 'RST'], rs, body]])
        if k < .75:
            if r.random() < .5:
                return ('proc', [('CLK', 0)], [['if', ['v', 'RST'], rs, body]])
        return ('proc', [('CLK', 1)], [['if', ['u!', ['v', 'RST']], body, rs]])

    def combitem(self, m, av, fns, kids, top):
        """items defining new wires; extends av"""
        r = self.r
        k = r.random()
        if k < .18:
            v = self.var(m, 'wire')
            o = [('decl', v), ('assign', ['v', v.name], self.ex(av, 3, fns), r.random() < .1)]
            av.append(v)
            return o
        if k < .28:
            v = self.var(m, 'wire')
            o = [('wdecl', v, self.ex(av, 2, fns))]
            av.append(v)
            return o
        if k < .36:
            vs = [self.var(m, 'wire', conly=True) for _ in range(2)]
            o = [('decl', v) for v in vs] + [('assign', ['cat', [['v', v.name] for v in vs]], self.ex(av, 2, fns), False)]
            av += vs
            return o
        if k < .56:
            vs = [self.var(m, 'reg') for _ in range(r.choice([1, 1, 2]))]
            iv = V(self.uid('i'), 'integer', 32, 1)
            loop = r.random() < .3
            rd = [x for x in av if not isinstance(x, V) or not x.d]
            b = [['bl', ['v', v.name], self.ex(rd, 1)] for v in vs]
            b += self.stmts(vs, rd + vs, 2, 'bl', {'fns': fns, 'iv': iv if loop else None, 'while': False})
            o = [('decl', v) for v in vs] + ([('decl', iv)] if loop else [])
            used = sorted(set(names(b)) - set(v.name for v in vs) - set([iv.name]))
            sig = [x for x in used if any(isinstance(y, V) and y.name == x and y.kind != 'integer' for y in av)]
            sens = '*'
            if sig and r.random() < .3:
                sens = ' or '.join(sig)
            if not sig:
                b = [['bl', ['v', vs[0].name], ['&', self.ex([x for x in rd if isinstance(x, V)], 0), self.K(-1 & 255)]]] + b
                if not set(names(b)) & set(y.name for y in av if isinstance(y, V)):
                    return self.combitem(m, av, fns, kids, top)
            av += vs
            return o + [('comb', sens, b)]
        if k < .74 and kids:
            return self.instance(m, r.choice(kids), av)
        if k < .90:
            return self.gen(m, av, fns, kids)
        if m.params:
            return self.genif(m, av, fns)
        return self.combitem(m, av, fns, kids, top)

    def instance(self, m, kid, av, in_gen=False):
        r = self.r
        u = self.uid('u')
        pa = []
        over = {}
        pnamed = r.random() < .6
        hd = kid.params
        for p in hd:
            if pnamed and r.random() < .4:
                continue
            if not pnamed and r.random() < .3:
                break
            mine = [q for q in m.params if q[0][0] == p[0][0] == 'W']
            if mine and r.random() < .5:
                e = ['p', r.choice(mine)[0]]
            else:
                e = self.K(r.randrange(3, 10) if p[0][0] == 'W' else r.randrange(0, 8))
            pa.append((p[0], e))
        po = []
        o = []
        named = r.random() < .65
        new = []
        given = dict(pa)
        for d, v, reg in kid.ports:
            if d == 'input':
                e = ['v', v.name] if v.name in ('CLK', 'RST') else self.ex(av, r.choice([0, 1, 2]))
                if v.name not in ('CLK', 'RST') and e[0] == 'k':
                    e = self.K(e[4] & 15, 4, 0)
                po.append((v.name, e))
            else:
                w = wexpr(kid, v, given, m)
                if w is None:
                    po.append((v.name, None if named else False))
                    continue
                if named and r.random() < .1:
                    po.append((v.name, None))
                    continue
                x = V(self.uid('w'), 'wire', w, int(r.random() < .3), wmin=None)
                new.append(x)
                po.append((v.name, ['v', x.name]))
        if any(e is False for n, e in po):
            return self.combitem(m, av, [], [], False)
        if named and r.random() < .3:
            r.shuffle(po)
        o = [('decl', x) for x in new] + [('inst', kid, u, pa, po, named, pnamed)]
        av += new
        inner = [v for t, v in [x[:2] for x in kid.items if x[0] in ('decl', 'rdecl')] if v.kind == 'reg' and not v.d and v.name in kid.seqregs]
        if inner and r.random() < .3:
            av.append(['hv', '%s.%s' % (u, r.choice(inner).name)])
        return o

    def gen(self, m, av, fns, kids, wrap=True):
        r = self.r
        gv = self.uid('g')
        lab = self.uid('b')
        n = r.choice([2, 3, 4])
        N = self.K(n)
        rd = [x for x in av if not isinstance(x, V) or not x.d]
        GV = ['p', gv]
        its = []
        bus = V(self.uid('w'), 'wire', r.choice([n, n * 2]) if False else n)
        k = r.random()
        loc = []
        if k < .5:
            x = V(self.uid('w'), 'wire', r.choice([1, 4, 8]), int(r.random() < .3))
            its += [('decl', x), ('assign', ['v', x.name], self.ex(rd + [GV], 2, fns), False)]
            loc.append(x)
        if k < .7:
            y = V(self.uid('r'), 'reg', r.choice([1, 4, 8]), int(r.random() < .3))
            its += [('decl', y), ('initial', [['bl', ['v', y.name], self.K(0)]]),
                    ('proc', [('CLK', 1)], [['if', ['v', 'RST'], [['nb', ['v', y.name], self.K(0), False]],
                                             self.stmts([y], rd + loc + [y, GV], 2, 'nb', dict(fns=fns))]])]
            loc.append(y)
        ok = [q for q in kids if all(isinstance(v.w, int) for d, v, g in q.ports if d == 'output')]
        if ok and r.random() < .4:
            a2 = list(rd + loc)
            its += self.instance(m, r.choice(ok), a2)
            loc += [x for x in a2[len(rd) + len(loc):]]
        if wrap and r.random() < .2:
            a2 = rd + loc + [GV]
            its += self.gen(m, a2, fns, [], False)
            loc.append(a2[len(rd) + len(loc) + 1])
        its.append(('assign', ['bit', bus, GV], self.ex(rd + loc + [GV, ['bit', r.choice(rd), self.K(0)]] if False else rd + loc + [GV], 2, fns), False))
        if r.random() < .3:
            z = V(self.uid('w'), 'wire', 4)
            its.append(('decl', z))
            its.append(('genif', [r.choice(['==', '<', '>']), GV, self.K(r.randrange(n))], None,
                        [('assign', ['v', z.name], self.ex(rd + [GV], 1), False)], None,
                        [('assign', ['v', z.name], self.ex(rd + [GV], 1), False)], False))
        o = [('decl', bus), ('raw', 'genvar %s;' % gv), ('gen', gv, 0, N, lab, its, wrap)]
        av.append(bus)
        vis = [x for x in loc if not isinstance(x, list)]
        if vis and r.random() < .6:
            x = r.choice(vis)
            av.append(['hv', '%s[%d].%s' % (lab, r.randrange(n), x.name)])
        return o

    def genif(self, m, av, fns):
        r = self.r
        v = V(self.uid('w'), 'wire', r.choice([1, 4, 8]), int(r.random() < .3))
        c = [r.choice(['==', '<', '>', '!=', '>=']), ['p', r.choice(m.params)[0]], self.K(r.randrange(3, 8))]
        a = [('assign', ['v', v.name], self.ex(av, 2, fns), False)]
        b = [('assign', ['v', v.name], self.ex(av, 2, fns), False)]
        if r.random() < .3:
            c2 = [r.choice(['==', '<']), ['p', r.choice(m.params)[0]], self.K(r.randrange(3, 8))]
            b = [('genif', c2, None, b, None, [('assign', ['v', v.name], self.ex(av, 1, fns), False)], False)]
        l = r.random() < .4
        o = [('decl', v), ('genif', c, self.uid('b') if l else None, a, self.uid('b') if l else None, b, True)]
        av.append(v)
        return o


def iv_for(g, I):
    v = V(g.uid('i'), 'integer', 32, 1)
    I.append(('decl', v))
    return v


def wexpr(kid, v, given, m):
    """width of an output of an instance in the parent: int, ('p', parent parameter, add), or None"""
    if isinstance(v.w, int):
        return v.w
    loc = dict((p[0], p[1]) for p in kid.locals)
    n, add = v.w[1], v.w[2]
    for _ in range(4):
        if n in given:
            e = given[n]
            return e[4] + add if e[0] == 'k' else ('p', e[1], add)
        e = loc.get(n)
        if e is None:
            e = [p[1] for p in kid.params if p[0] == n][0]
        if e[0] == 'k':
            return e[4] + add
        if e[0] == '+':
            n, add = e[1][1], add + e[2][4]
        else:
            n = e[1]
    return None


def names(x):
    if isinstance(x, V):
        return [x.name]
    if isinstance(x, (list, tuple)):
        if len(x) > 1 and x[0] in ('v', 'mem') and isinstance(x[1], str):
            return [x[1]] + names(x[2:])
        return [n for y in x for n in names(y)]
    return []


def unsz(e):
    t = e[0]
    if t in ('k',):
        return e[1] == 32
    if t == 'p':
        return True
    if t in ('+', '-', '*', '/', '%', '&', '|', '^', '~^'):
        return unsz(e[1]) or unsz(e[2])
    if t == '?':
        return unsz(e[2]) or unsz(e[3])
    if t in L.UN or t in ('<<', '>>', '>>>', '**', '$s', '$u'):
        return unsz(e[1])      # (the simulator also wants sizes below reductions)
    return False


def design(seed):
    rng = random.Random(seed)
    g = G(rng)
    kids = []
    mods = []
    for i in range(rng.choice([0, 0, 1, 2])):
        k = g.module('sub%d' % i, list(kids), False)
        kids.append(k)
        mods.append(k)
    t = g.module('top', kids, True)
    mods.append(t)
    over = {}
    for p in t.params:
        if rng.random() < .3:
            over[p[0]] = rng.randrange(3, 10) if p[0][0] == 'W' else rng.randrange(0, 8)
    return mods, t, over, rng


def tb(top, ins, outs, over, stim, nm=str):
    Wd = sum(w for _, w in ins)
    fn = 'stim_%d_%d.hex' % (os.getpid(), next(_ctr2))
    with open(fn, 'w') as f:
        for row in stim:
            v = 0
            for (n, w), x in zip(ins, row):
                v = (v << w) | x
            f.write('%x\n' % v)
    o = ['module tb;', 'reg clk;', 'reg [%d:0] st [0:%d];' % (Wd - 1, len(stim) - 1), 'reg [%d:0] cur;' % (Wd - 1), 'integer i;']
    conn = ['.%s(clk)' % nm('CLK')]
    for n, w in ins:
        o.append('wire [%d:0] i_%s;' % (w - 1, n))
        conn.append('.%s(i_%s)' % (nm(n), n))
    for n, w in outs:
        o.append('wire [%d:0] o_%s;' % (w - 1, n))
        conn.append('.%s(o_%s)' % (nm(n), n))
    o.append('assign {%s} = cur;' % ', '.join('i_' + n for n, _ in ins))
    o.append('%s %suut(%s);' % (top, '#(%s) ' % ', '.join('.%s(%d)' % (nm(a), x) for a, x in sorted(over.items())) if over else '', ', '.join(conn)))
    o.append('initial begin $readmemh("%s", st);' % os.path.abspath(fn))
    o.append('for(i=0; i<%d; i=i+1) begin cur = st[i]; #100 clk = 0; #100;' % len(stim))
    o.append('$display("@%s"%s);' % (' %h' * len(outs), ''.join(', o_' + n for n, _ in outs)))
    o.append('clk = 1; #100; end $finish; end endmodule')
    return '\n'.join(o), fn


_ctr2 = iter(range(10 ** 9))


def simtext(text, top, ins, outs, over, stim, nm=str):
    t, fn = tb(top, ins, outs, over, stim, nm)
    try:
        lines = simulate([text, t], top='tb', timeout=60)
    finally:
        os.unlink(fn)
    rows = [[parse_hex(x) for x in l[1:].split()] for l in lines if l.startswith('@')]
    if len(rows) != len(stim):
        raise SimError('simulation stopped after %d rows: %s' % (len(rows), lines[-3:]))
    return [[bits(x, w) if x is not None else [2] * w for x, (_, w) in zip(row, outs)] for row in rows]


def defaults(m):
    e = L.Elab()
    return e, e.module(m, {})


def iface(mods):
    o = []
    for m in sorted(mods, key=lambda m: m.name):
        e, sc = defaults(m)
        o.append([m.name, [[v.name, d, v.s, sc[v.name][2]] for d, v, r in m.ports],
                  sorted(p[0] for p in m.params), sorted(p[0] for p in m.locals)])
    return o


def got_iface(d, mods):
    """what the modules read say about themselves; widths with the default parameters"""
    import veriloggen.core.vtypes as vt
    sc = dict((m.name, defaults(m)[1]) for m in mods)
    o = []
    for n in sorted(d):
        m = d[n]
        env = dict((k, v[1]) for k, v in sc[n].items() if v[0] == 'k') if n in sc else {}
        ports = []
        for pn, p in m.get_ports().items():
            w = 1 if p.width is None else int(eval(str(p.width), {}, env))
            dr = {'Input': 'input', 'Output': 'output', 'Inout': 'inout'}[type(p).__name__]
            ports.append([pn, dr, int(bool(p.signed)), w])
        o.append([n, ports, sorted(m.get_params().keys()), sorted(m.get_localparams().keys())])
    return o


def run(seed):
    import veriloggen as vg
    mods, top, over, rng = design(seed)
    order = list(mods)
    if rng.random() < .4:
        rng.shuffle(order)
    src = '\n'.join(m.text() for m in order)
    P, ins, outs = L.elaborate(top, over)
    stim = []
    ncy = 16
    cur = [0] * len(ins)
    for c in range(ncy):
        cur = list(cur)
        for i, (n, w) in enumerate(ins):
            if n == 'RST':
                cur[i] = 1 if c < 2 else int(rng.random() < .08)
            elif rng.random() < .8:
                k = rng.random()
                cur[i] = rng.randrange(1 << w) if k < .7 else rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1)])
        stim.append(cur)
    res = dict(seed=seed, src=src)
    try:
        orig = simtext(src, 'top', ins, outs, over, stim)
    except SimError as e:
        return dict(seed=seed, skip=str(e)[:300])  # the simulator itself rejects the source
    runs = [orig]
    what = ['source']
    fails = []

    def guard(name, fn):
        try:
            return fn()
        except SimError as e:
            fails.append((name, str(e)[:1500]))
        except Exception as e:
            import traceback
            fails.append((name, '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-700:])))

    read = vg.from_verilog.read_verilog_module_str
    d = guard('read', lambda: read(src))
    want = iface(mods)
    got = want
    if d is not None:
        got = guard('interface', lambda: got_iface(d, mods)) or []
        t1 = guard('emit', lambda: d['top'].to_verilog())
        if t1 is not None:
            x = guard('re-emitted text', lambda: simtext(t1, 'top', ins, outs, over, stim))
            if x is not None:
                runs.append(x)
                what.append('re-emitted')
            d2 = guard('read again', lambda: read(t1))
            if d2 is not None:
                t2 = guard('emit again', lambda: d2['top'].to_verilog())
                if t2 is not None and t2 != t1:
                    fails.append(('not a fixed point', diff(t1, t2)))

        pre, post = rng.choice([('', ''), ('x_', ''), ('', '_y'), ('x_', '_y')])
        kw = dict(prefix=pre, postfix=post)
        inner = not over and rng.random() < .6

        def nm(n):
            return pre + n + post

        def wrap():
            t = d['top']
            w = vg.Module('wrap')
            w.copy_params(t, **kw)
            w.copy_localparams(t, **kw)
            ports = w.copy_ports(t, **kw)
            ck = kw
            if inner:       # the instance hangs on constants and wires of its own; the internal variables are copied, too
                ck = dict(prefix=pre, postfix=post + '_v')
                w.copy_params_as_localparams(t, **ck)
                w.copy_localparams(t, **ck)
                vs = w.copy_sim_ports(t, use_wire=True, **ck)
                for n in t.get_ports():
                    o, v = ports[nm(n)], vs[nm(n) + '_v']
                    w.Assign(v(o)) if t.is_input(n) else w.Assign(o(v))
                w.copy_vars(t, exclude=list(t.get_ports()), use_fullmatch=True, **ck)
            w.Instance(t, 'uut', params=w.connect_params(t, **ck), ports=w.connect_ports(t, **ck))
            return w.to_verilog()
        tw = guard('wrap', wrap) if rng.random() < .5 else None
        if tw is not None:
            x = guard('wrapper', lambda: simtext(tw, 'wrap', ins, outs, over, stim, nm))
            if x is not None:
                runs.append(x)
                what.append('wrapped')
        # (the code generator of the parser library drops initial values, and prints null statements as events)
        if rng.random() < .3 and not re.search(r'^ *;$|^ *(reg|integer) [^;]*=', src, re.M):
            def stub():
                s = vg.from_verilog.read_verilog_stubmodule_str(src)
                w = vg.Module('wrap')
                ps = [(p[0], over.get(p[0])) for p in top.params if p[0] in over]
                po = []
                for dd, v, r in top.ports:
                    wd = dict(ins + outs).get(v.name, 1)
                    po.append((v.name, (w.Input if dd == 'input' else w.Output)(v.name, wd)))
                w.Instance(s['top'], 'uut', params=ps, ports=po)
                # the other modules come with their own stubs
                return w.to_verilog() + '\n' + '\n'.join(s[m.name].to_verilog() if False else m.text() for m in mods if m.name != 'top')
            ts = guard('stub', stub)
            if ts is not None:
                x = guard('stub module', lambda: simtext(ts, 'wrap', ins, outs, {}, stim))
                if x is not None:
                    runs.append(x)
                    what.append('stub')
    rows = [[bits(x, w) for x, (_, w) in zip(row, ins)] for row in stim]
    res.update(trace=dict(P=P, rows=rows, runs=runs, want=want, got=got), what=what, fails=fails)
    return res


def diff(a, b):
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y:
            return '%r became %r' % (x, y)
    return 'lengths differ'


def check():
    chk = Check('C17')
    model_check(chk, 'VlogMC', 'VlogMC.cfg')
    if not chk.quick():
        model_check(chk, 'VlogMC', 'VlogMC_full.cfg')
    n = chk.n(220, 1600)
    seeds = ['%d/%d' % (chk.seed, i) for i in range(n)]
    res = pmap(run, seeds)
    tr, idx = [], []
    kinds = {}
    skipped = 0
    for s, x in zip(seeds, res):
        if x[0] != 'ok':
            raise MachineryError('design %s: %s' % (s, x[1:]))
        x = x[1]
        if 'skip' in x:
            skipped += 1
            continue
        for name, e in x['fails']:
            chk.violation('%s: %s' % (name, e.split('\n')[0][:200]), 'design %s: %s: %s' % (s, name, e), dict(seed=s, src=x['src']))
        for w in x['what']:
            kinds[w] = kinds.get(w, 0) + 1
        tr.append(x['trace'])
        idx.append(x)
    chk.extra['not simulated'] = skipped
    if skipped * 10 > n:
        raise MachineryError('%d of %d generated designs do not simulate' % (skipped, n))
    for i, ok, line, clause, det in validate(chk, 'VlogTrace', 'VlogTrace.cfg', tr, jobs=NPROC):
        if ok:
            continue
        x = idx[i]
        if clause == 'outputs':
            m = re.match(r'[,\s]*(\d+)', det)
            k = int(m.group(1)) - 1
            if k == 0:
                raise MachineryError('design %s: the source disagrees with the specification at cycle %d: %s\n%s' % (
                    x['seed'], line, det, x['src']))
            clause = '%s differs' % x['what'][k]
        chk.violation('%s in design %s' % (clause, x['seed']), 'cycle %d: %s' % (line, det), dict(seed=x['seed'], src=x['src']))
    chk.extra['renditions'] = kinds
    chk.sample(dict(seed=idx[0]['seed'], source=idx[0]['src'][:1500]))
    chk.assumptions = ['sources within the constructs the reader accepts (no casez, no named blocks with declarations, no primitives)',
                       'iverilog as the simulator of source and re-emitted text']
    return chk.finish()


if __name__ == '__main__':
    main(check)
