"""C19: hierarchy, parameters and generate structures against Hier.tla."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


# ---- expressions: [0, n] | [1, name] | [2, op, l, r] --------------------------------
def K(n):
    return [0, n]


def V(n):
    return [1, n]


def O(op, l, r):
    return [2, op, l, r]


def subst(e, env):
    if e[0] == 0:
        return e
    if e[0] == 1:
        return env.get(e[1], e)
    return [2, e[1], subst(e[2], env), subst(e[3], env)]


def val(e, env):
    if e[0] == 0:
        return e[1]
    if e[0] == 1:
        return env[e[1]]
    l, r = val(e[2], env), val(e[3], env)
    return {'+': l + r, '*': l * r, '>': int(l > r), '==': int(l == r), '%': l % r if r else 0}[e[1]]


def small(rng, names, lo=0, hi=9):
    c = rng.random()
    if not names or c < .4:
        return K(rng.randrange(lo, hi + 1))
    if c < .75:
        return V(rng.choice(names))
    return O('+', V(rng.choice(names)), K(rng.randrange(1, 3)))


def gen_leaf(rng, k, name):
    M = dict(kind='leaf', name=name, body=[])
    ps = [['W', K(rng.randrange(4, 13))]]
    if rng.random() < .8:
        ps.append(['A', K(rng.randrange(1, 6)) if rng.random() < .6 else O('+', V('W'), K(1))])
    if rng.random() < .7:
        ps.append(['B', small(rng, [p[0] for p in ps])])
    head = ps[:]
    rng.shuffle(ps)
    if any(e[0] != 0 for _, e in ps):
        ps = head
    M['params'] = ps
    names = [p[0] for p in ps]
    M['locals'] = [['L', O('*', V(names[-1]), K(3))]] if rng.random() < .5 else []
    M['w'] = V('W') if rng.random() < .7 else O('+', V('W'), K(1))
    M['a'] = V('A') if 'A' in names else K(rng.randrange(1, 4))
    M['b'] = V('L') if M['locals'] else V('B') if 'B' in names else K(rng.randrange(9))
    M['form'] = rng.choice(('assign', 'always', 'function', 'task', 'seq', 'seq', 'fsm', 'stub', 'stub', 'verilog', 'extern'))
    M['pw'] = rng.random() < .2 and M['form'] not in ('stub', 'verilog', 'extern')
    return M


def args(rng, mods, m, names):
    """values for some of the parameters of module m"""
    out = []
    for p, _ in mods[m]['params']:
        if rng.random() < .6:
            if p.lstrip('xyz_').startswith('W'):
                wn = [n for n in names if n.lstrip('xyz_').startswith('W')]
                c = rng.random()
                e = K(rng.randrange(3, 14)) if c < .5 or not wn else V(rng.choice(wn)) if c < .85 else O('+', O('%', V(rng.choice(wn)), K(4)), K(3))
            elif p == 'N':
                e = K(rng.randrange(0, 4)) if rng.random() < .7 or 'N' not in names else V('N')
            elif p == 'C':
                e = K(rng.randrange(0, 3)) if rng.random() < .7 or 'C' not in names else O('>', V('C'), K(0))
            else:
                e = small(rng, names)
            out.append([p, e])
    return out


def gen_items(rng, mods, names, depth, top, cheap):
    items = []
    for _ in range(rng.randrange(1, 4 if depth == 0 else 3)):
        c = rng.random()
        if c < (.5 if depth < 2 else .75):
            m = rng.randrange(len(mods)) if not cheap else rng.choice(cheap)
            a = args(rng, mods, m, names)
            how = rng.choice(('named', 'named', 'dict', 'pos', 'sub' if depth == 0 else 'named'))
            if how == 'pos':
                # a prefix of the parameters
                n = len(a)
                got = dict((p, e) for p, e in a)
                a = [[p, got.get(p, K(5))] for p, _ in mods[m]['params'][:n]]
            elif how == 'named':
                rng.shuffle(a)
            items.append(dict(t='inst', m=m, args=a, how=how, ports=rng.choice(('named', 'dict', 'pos', 'conn'))))
        elif c < .6 or depth >= 2:
            items.append(dict(t='add', e=small(rng, names)))
        elif c < .8:
            i = 'i%d' % depth
            n = V('N') if 'N' in names and rng.random() < .7 else K(rng.randrange(1, 4))
            items.append(dict(t='for', i=i, n=n, body=gen_items(rng, mods, names + [i], depth + 1, top, cheap), label=rng.random() < .7))
        else:
            p = rng.choice(names)
            e = O(rng.choice(('>', '==')), V(p), K(rng.randrange(0, 3) if p in ('C', 'N') or p.startswith('i') else rng.randrange(2, 9)))
            items.append(dict(t='if', c=e, body=gen_items(rng, mods, names, depth + 1, top, cheap),
                              alt=gen_items(rng, mods, names, depth + 1, top, cheap), label=rng.random() < .7))
    return items


def gen(rng, k):
    clash = rng.random() < .35
    mods = []
    pool = ('leaf', 'sub', 'mid')

    def name(i):
        return rng.choice(pool) if clash else 'm%d' % i
    for i in range(rng.randrange(1, 4)):
        mods.append(gen_leaf(rng, i, name(i)))
    for i in range(rng.randrange(1, 4)):
        k = len(mods)
        if rng.random() < .25:
            # a wrapper made with copy_params / copy_ports
            c = rng.randrange(k)
            pre, post = rng.choice((('', ''), ('x_', ''), ('', '_y'), ('x_', '_y')))
            ren = dict((p, V(pre + p + post)) for p, _ in mods[c]['params'])
            keep = [p for p, _ in mods[c]['params']]
            locs = dict()
            w = mods[c]['w']
            if mods[c]['locals']:
                for n, e in mods[c]['locals']:
                    locs[n] = subst(e, locs)
                w = subst(w, locs)
            mods.append(dict(kind='node', name=name(k), wrap=c, pre=pre, post=post, locals=[],
                             params=[[pre + p + post, subst(e, ren)] for p, e in mods[c]['params']],
                             w=subst(w, ren), a=K(0), b=K(0),
                             body=[dict(t='inst', m=c, args=[[p, ren[p]] for p in keep], how='wrap', ports='wrap')]))
            continue
        ps = [['W', K(rng.randrange(4, 14))]]
        if rng.random() < .6:
            ps.append(['N', K(rng.randrange(0, 4))])
        if rng.random() < .6:
            ps.append(['C', K(rng.randrange(0, 3))])
        if rng.random() < .6:
            ps.append(['A', small(rng, [p[0] for p in ps])])
        M = dict(kind='node', name=name(k), params=ps, a=K(0), b=K(0))
        names = [p[0] for p in ps]
        M['locals'] = [['L', small(rng, names)]] if rng.random() < .4 else []
        if M['locals']:
            names = names + ['L']
        M['w'] = V('W') if rng.random() < .8 else O('+', V('W'), K(1))
        cheap = [i for i in range(k) if not any(it['t'] == 'for' for it in mods[i]['body'])]
        M['body'] = gen_items(rng, mods, names, 0, False, cheap)
        mods.append(M)
    top = dict(mods[-1])
    if top['kind'] == 'leaf' or 'wrap' in top or rng.random() < .7:
        ps = [['W', K(rng.randrange(6, 15))], ['N', K(rng.randrange(1, 3))], ['C', K(rng.randrange(0, 2))]]
        cheap = list(range(len(mods)))
        body = gen_items(rng, mods, ['W', 'N', 'C'], 0, True, cheap)
        mods.append(dict(kind='node', name='top', params=ps, locals=[], w=V('W'), a=K(0), b=K(0), body=body))
    else:
        mods[-1]['name'] = 'top'
    over = [[]]
    for _ in range(2):
        o = []
        for p, _ in mods[-1]['params']:
            if rng.random() < .6:
                o.append([p, rng.randrange(4, 15) if p[0] == 'W' else rng.randrange(0, 4)])
        over.append(o)
    return dict(mods=mods, over=over, inputs=[rng.randrange(65536) for _ in range(4)], clash=clash)


def cost(d):
    """number of leaf copies; designs that are too large are not used"""
    memo = {}

    def items(body, env):
        t = 0
        for it in body:
            if it['t'] == 'inst':
                t += modc(it['m'])
            elif it['t'] == 'for':
                t += 4 * items(it['body'], env)
            elif it['t'] == 'if':
                t += max(items(it['body'], env), items(it['alt'], env))
        return t

    def modc(m):
        if m not in memo:
            M = d['mods'][m]
            memo[m] = 1 if M['kind'] == 'leaf' else items(M['body'], None)
        return memo[m]
    return modc(len(d['mods']) - 1)


# ---- building -----------------------------------------------------------------------
def text_of(M, name):
    """a leaf as Verilog source"""
    def s(e):
        return str(e[1]) if e[0] < 2 else '(%s %s %s)' % (s(e[2]), e[1], s(e[3]))
    return """
module %s #(%s) (input CLK, input RST, input [15:0] d, output [%s-1:0] q);
%s
  wire [31:0] t;
  assign t = d * %s + %s;
  assign q = t;
endmodule
""" % (name, ', '.join('parameter %s = %s' % (p, s(e)) for p, e in M['params']), s(M['w']),
       ''.join('  localparam %s = %s;\n' % (p, s(e)) for p, e in M['locals']), s(M['a']), s(M['b']))


def build(d, vg):
    mods = d['mods']
    objs, pns, extern = [], [], []

    def renames(k):
        return isinstance(objs[k], vg.Module) and not isinstance(objs[k], vg.StubModule)

    def ex(e, env):
        if e[0] == 0:
            return e[1]
        if e[0] == 1:
            return env[e[1]]
        l, r = ex(e[2], env), ex(e[3], env)
        if not isinstance(l, vg.core.vtypes.VeriloggenNode) and not isinstance(r, vg.core.vtypes.VeriloggenNode):
            l = vg.Int(l)
        return {'+': lambda: l + r, '*': lambda: l * r, '>': lambda: l > r, '==': lambda: l == r, '%': lambda: l % r}[e[1]]()

    def leaf(M, k):
        n = M['name']
        if M['form'] == 'stub':
            n = n + '_s%d' % k
            return vg.StubModule(n, text_of(M, n))
        if M['form'] == 'extern':
            n = n + '_e%d' % k
            extern.append(text_of(M, n))
            return n
        if M['form'] == 'verilog':
            return vg.from_verilog.read_verilog_module_str(text_of(M, n))[n]
        m = vg.Module(n)
        env = {}
        for p, e in M['params']:
            env[p] = m.Parameter(p, ex(e, env), *([8] if M['pw'] else []))
        clk, rst, x = m.Input('CLK'), m.Input('RST'), m.Input('d', 16)
        for p, e in M['locals']:
            env[p] = m.Localparam(p, ex(e, env))
        w = ex(M['w'], env)
        a, b = ex(M['a'], env), ex(M['b'], env)
        f = M['form']
        if f in ('assign', 'function'):
            q = m.Output('q', w)
            t = m.Wire('t', 32)
            if f == 'assign':
                t.assign(x * a + b)
            else:
                fn = m.Function('fn', 32)
                y = fn.Input('y', 32)
                fn.Body(fn(y * a + b))
                t.assign(fn.call(x))
            q.assign(t)
        elif f in ('always', 'task'):
            q = m.Output('q', w)
            r = m.Reg('r', 32)
            if f == 'always':
                m.Always()(r(x * a + b, blk=True))
            else:
                tk = m.Task('tk')
                y = tk.Input('y', 32)
                tk.Body(r(y * a + b, blk=True))
                m.Always(x)(tk.call(x))
            m.Assign(q(r))
        else:
            q = m.OutputReg('q', w, initval=0)
            if f == 'seq':
                s = vg.Seq(m, 'seq', clk, rst)
                s(q(x * a + b))
            else:
                s = vg.FSM(m, 'fsm', clk, rst)
                s(q(x * a + b))
                s.goto_next()
                s.goto_init()
        return m

    def outw(m, given):
        """width of an instance as an expression of the parent"""
        M = mods[m]
        env = {}
        g = dict((p, e) for p, e in given)
        for p, e in M['params']:
            env[p] = g[p] if p in g else subst(e, env)
        for p, e in M['locals']:
            env[p] = subst(e, env)
        return subst(M['w'], env)

    uid = [0]

    def chain(m, body, env, x, clk, rst):
        for it in body:
            x = item(m, it, env, x, clk, rst)
        return x

    def item(m, it, env, x, clk, rst):
        uid[0] += 1
        u = uid[0]
        y = m.Wire('y%d' % u, 16)
        if it['t'] == 'add':
            y.assign(x + ex(it['e'], env))
        elif it['t'] == 'inst':
            sub = objs[it['m']]
            pn = pns[it['m']]
            given = [(p, ex(e, env)) for p, e in it['args']]
            if it['how'] == 'sub' and isinstance(sub, vg.Module) and not isinstance(sub, vg.StubModule):
                s = vg.Submodule(m, sub, 'su%d' % u, prefix='su%d_' % u, arg_params=given, arg_ports=((pn['CLK'], clk), (pn['RST'], rst), (pn['d'], x)))
                y.assign(s[pn['q']])
                return y
            q = m.Wire('q%d' % u, ex(outw(it['m'], it['args']), env))
            ports = [(pn['CLK'], clk), (pn['RST'], rst), (pn['d'], x), (pn['q'], q)]
            if it['how'] == 'dict':
                given = dict(given)
            elif it['how'] == 'pos':
                given = [v for _, v in given]
            if it['ports'] == 'dict':
                ports = dict(reversed(ports))
            elif it['ports'] == 'pos':
                ports = [v for _, v in ports]
            elif it['ports'] == 'conn' and pn['CLK'] == 'CLK':
                ports = ports[2:] + vg.connect_same_name(clk, rst)
            m.Instance(sub, 'u%d' % u, params=given, ports=ports)
            y.assign(q)
        elif it['t'] == 'for':
            n = ex(it['n'], env)
            b = m.Wire('b%d' % u, (n + 1) * 16 if not isinstance(n, int) else (n + 1) * 16)
            g = m.Genvar('g%d' % u)
            m.Assign(vg.Slice(b, 15, 0)(x))
            f = m.GenerateFor(g(0), g < n, g(g + 1), 'lp%d' % u if it['label'] else None)
            e2 = dict(env)
            e2[it['i']] = g
            v = f.Wire('v%d' % u, 16)
            v.assign(vg.Slice(b, g * 16 + 15, g * 16))
            r = chain(f, it['body'], e2, v, clk, rst)
            f.Assign(vg.Slice(b, g * 16 + 31, g * 16 + 16)(r))
            y.assign(vg.Slice(b, n * 16 + 15, n * 16) if not isinstance(n, int) else vg.Slice(b, n * 16 + 15, n * 16))
        else:
            c = ex(it['c'], env)
            f = m.GenerateIf(c, 'th%d' % u if it['label'] else None)
            r = chain(f, it['body'], env, x, clk, rst)
            f.Assign(vg.Slice(y, 15, 0)(r))
            e = f.Else('el%d' % u) if it['label'] else f.Else
            r = chain(e, it['alt'], env, x, clk, rst)
            e.Assign(vg.Slice(y, 15, 0)(r))
        return y

    def node(M):
        m = vg.Module(M['name'])
        if 'wrap' in M:
            sub = objs[M['wrap']]
            if renames(M['wrap']):
                kw = dict(prefix=M['pre'], postfix=M['post'])
                m.copy_params(sub, **kw)
                m.copy_ports(sub, **kw)
                m.Instance(sub, 'u', params=m.connect_params(sub, **kw), ports=m.connect_ports(sub, **kw))
                return m
        env = {}
        for p, e in M['params']:
            env[p] = m.Parameter(p, ex(e, env))
        clk, rst, x = m.Input('CLK'), m.Input('RST'), m.Input('d', 16)
        q = m.Output('q', ex(M['w'], env)) if not M['locals'] else None
        for p, e in M['locals']:
            env[p] = m.Localparam(p, ex(e, env))
        if q is None:
            q = m.Output('q', ex(M['w'], env))
        if 'wrap' in M:
            it = dict(M['body'][0], how='named', ports='named')
            q.assign(item(m, it, env, x, clk, rst))
        else:
            q.assign(chain(m, M['body'], env, x, clk, rst))
        return m

    for k, M in enumerate(mods):
        objs.append(leaf(M, k) if M['kind'] == 'leaf' else node(M))
        pn = dict((n, n) for n in ('CLK', 'RST', 'd', 'q'))
        if 'wrap' in M and renames(M['wrap']):
            pn = dict((n, M['pre'] + x + M['post']) for n, x in pns[M['wrap']].items())
        pns.append(pn)
    return objs[-1], '\n'.join(extern)


def run(d):
    import veriloggen as vg
    import veriloggen.resolver.resolver as resolver
    M = d['mods'][-1]
    ev = []
    top, ext = build(d, vg)

    def widths(o):
        env = {}
        g = dict(map(tuple, o))
        for p, e in M['params']:
            env[p] = g[p] if p in g else val(e, env)
        for p, e in M['locals']:
            env[p] = val(e, env)
        return val(M['w'], env)

    def go(text, over, name):
        L = ['module tb; reg CLK = 0, RST = 0; reg [15:0] d; always #5 CLK = !CLK;']
        for i, o in enumerate(over):
            L.append('wire [%d:0] q%d; %s %s u%d(.CLK(CLK), .RST(RST), .d(d), .q(q%d));' % (
                widths(o) - 1, i, name, '#(%s)' % ', '.join('.%s(%d)' % (p, v) for p, v in o) if o else '', i, i))
        L.append('initial begin RST = 1; d = 0; #33 RST = 0;')
        for x in d['inputs']:
            L.append('d = %d; #2000 $display("@%s", %s);' % (x, ' '.join(['%h'] * len(over)), ', '.join('q%d' % i for i in range(len(over)))))
        L.append('$finish; end endmodule')
        rows = [l[1:].split() for l in simulate([text, ext, '\n'.join(L)], top='tb') if l.startswith('@')]
        if len(rows) != len(d['inputs']):
            raise SimError('no output')
        return rows

    for x, r in zip(d['inputs'], go(top.to_verilog(), d['over'], M['name'])):
        for o, t in zip(d['over'], r):
            y = parse_hex(t)
            ev.append([o, x, -1 if y is None else y])
    if True:
        top, ext = build(d, vg)
        res = resolver.resolve(top)
        for x, r in zip(d['inputs'], go(res.to_verilog(), [[]], M['name'])):
            y = parse_hex(r[0])
            ev.append([[], x, -1 if y is None else y])
    D = [dict((f, m[f]) for f in ('kind', 'params', 'locals', 'w', 'a', 'b', 'body')) for m in d['mods']]

    def fixm(body):
        return [dict(it, **dict((k, fixm(it[k])) for k in ('body', 'alt') if k in it), **({'m': it['m'] + 1} if 'm' in it else {})) for it in body]
    for m in D:
        m['body'] = fixm(m['body'])
    return dict(D=D, ev=ev)


def main():
    chk = Check('C19')
    model_check(chk, 'HierMC', 'HierMC.cfg' if chk.quick() else 'HierMC_full.cfg')
    N = chk.n(300, 6000)
    D = []
    while len(D) < N:
        d = gen(chk.rng, len(D))
        if cost(d) <= 120:
            D.append(d)
    T, I = [], []
    for d, r in zip(D, pmap(run, D)):
        if r[0] != 'ok':
            chk.violation(r[0] + ':', r[1], dict(design=d, error=r[1:]))
        else:
            T.append(r[1])
            I.append(d)
    for (i, ok, line, clause, det) in validate(chk, 'HierTrace', 'HierTrace.cfg', T, jobs=4):
        if not ok:
            plain = len(I[i]['over']) * len(I[i]['inputs'])
            chk.violation('%s:%s%s' % (clause, 'emitted' if line <= plain else 'resolved', ':clash' if I[i]['clash'] else ''), det, dict(design=I[i], event=T[i]['ev'][line - 1]))
    chk.extra.update(designs=N, evaluations=sum(len(t['ev']) for t in T))
    chk.sample(T[0]['ev'][:4])
    chk.assumptions = ['widths of connected nets are those of the instantiated ports', 'loop bounds 0 to 3']
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
