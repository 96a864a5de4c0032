"""Random Verilog-2005 modules as source text, with their elaboration to the processes of spec/Vlog.tla."""
from exprlib import bits

BIN = ['+', '-', '*', '&', '|', '^', '~^', '<', '<=', '>', '>=', '==', '!=', '&&', '||', '<<', '>>', '>>>', '===', '!==']
UN = {'u~': '~', 'u-': '-', 'u+': '+', 'u!': '!', 'r&': '&', 'r|': '|', 'r^': '^', 'r~&': '~&', 'r~|': '~|', 'r~^': '~^'}


class V(object):
    """a declared variable: w is an int or ('p', parameter, add) for [parameter+add-1:0]"""

    def __init__(self, name, kind, w, s=0, d=0, lsb=0, up=False, wmin=None):
        self.name, self.kind, self.w, self.s, self.d, self.lsb, self.up = name, kind, w, s, d, lsb, up
        self.wmin = wmin if wmin is not None else (w if isinstance(w, int) else 3 + w[2])

    def rng(self):
        if isinstance(self.w, tuple):
            a = self.w[2]
            return '[%s-1:0] ' % self.w[1] if a == 0 else '[%s+%d:0] ' % (self.w[1], a - 1)
        if self.w == 1 and self.lsb == 0:
            return ''
        if self.lsb:
            return '[%d:%d] ' % (self.w - 1 + self.lsb, self.lsb)
        return '[%d-1:0] ' % self.w if self.up else '[%d:0] ' % (self.w - 1)

    def decl(self, kind=None, s=True):
        k = kind or self.kind
        if k == 'integer':
            return 'integer %s' % self.name
        dim = ''
        if self.d:
            dim = ' [0:%d]' % (self.d - 1) if not self.up else ' [%d:0]' % (self.d - 1)
        return '%s %s%s%s%s' % (k, 'signed ' if self.s and s else '', self.rng(), self.name, dim)


# ---- text -----------------------------------------------------------------------------
def txt(e):
    t = e[0]
    if t in ('v', 'p', 'hv'):
        return e[1]
    if t == 'k':
        return e[3]
    if t == 'kx':
        return e[3]
    if t == 'mem':
        return '%s[%s]' % (e[1], txt(e[2]))
    if t == 'bit':
        return '%s[%s]' % (e[1].name, txt(e[2]) if e[1].lsb == 0 else str(e[2][4] + e[1].lsb))
    if t == 'sl':
        return '%s[%d:%d]' % (e[1].name, e[2] + e[1].lsb, e[3] + e[1].lsb)
    if t == 'cat':
        return '{%s}' % ', '.join(txt(x) for x in e[1])
    if t == 'rep':
        return '{%d{%s}}' % (e[1], txt(e[2]))
    if t == '?':
        return '((%s)? %s : %s)' % (txt(e[1]), txt(e[2]), txt(e[3]))
    if t == '$s':
        return '$signed(%s)' % txt(e[1])
    if t == '$u':
        return '$unsigned(%s)' % txt(e[1])
    if t == 'call':
        return '%s(%s)' % (e[1], ', '.join(txt(x) for x in e[2]))
    if t == '**':
        return '(%s ** %s)' % (txt(e[1]), txt(e[2]))
    if t in UN and len(e) == 2:
        return '(%s%s)' % (UN[t], txt(e[1]))
    return '(%s %s %s)' % (txt(e[1]), t, txt(e[2]))


def stx(s, ind=1):
    p = '  ' * ind
    t = s[0]
    if t == 'nb':
        return '%s%s <= %s%s;\n' % (p, txt(s[1]), '#1 ' if len(s) > 3 and s[3] else '', txt(s[2]))
    if t == 'bl':
        return '%s%s = %s;\n' % (p, txt(s[1]), txt(s[2]))
    if t == 'null':
        return p + ';\n'
    if t == 'blk':
        return '%sbegin\n%s%send\n' % (p, ''.join(stx(x, ind + 1) for x in s[1]), p)
    if t == 'if':
        o = '%sif(%s)\n%s' % (p, txt(s[1]), body(s[2], ind + 1))
        if s[3]:
            o += '%selse %s' % (p, body(s[3], ind + 1).lstrip() if len(s[3]) == 1 and s[3][0][0] == 'if' else '\n' + body(s[3], ind + 1))
        return o
    if t == 'case':
        o = '%s%s(%s)\n' % (p, s[3], txt(s[1]))
        for labs, b in s[2]:
            o += '%s  %s:\n%s' % (p, ', '.join(txt(x) for x in labs) if labs else 'default', body(b, ind + 2))
        return o + p + 'endcase\n'
    if t == 'for':
        return '%sfor(%s = %s; %s; %s = %s)\n%s' % (p, txt(s[1][1]), txt(s[1][2]), txt(s[2]), txt(s[3][1]), txt(s[3][2]), blk(s[4], ind + 1))
    if t == 'while':
        return '%swhile(%s)\n%s' % (p, txt(s[1]), blk(s[2], ind + 1))
    if t == 'rpt':
        return '%srepeat(%s)\n%s' % (p, txt(s[1]), blk(s[2], ind + 1))
    if t == 'task':
        return '%s%s(%s);\n' % (p, s[1], ', '.join(txt(x) for x in s[2]))
    raise Exception(t)


def blk(ss, ind):
    return stx(['blk', ss], ind)


def ends_if(s):
    """would an else after this statement be taken by it"""
    return s[0] in ('if', 'for', 'while', 'rpt')


def body(ss, ind):
    if len(ss) == 1 and not ends_if(ss[0]) and ss[0][0] != 'blk' and (ind % 2):
        return stx(ss[0], ind)
    if len(ss) == 1 and ss[0][0] == 'if' and ss[0][3] and not (ind % 2):
        return stx(ss[0], ind) if all_else(ss[0]) else blk(ss, ind)
    return blk(ss, ind)


def all_else(s):
    return bool(s[3]) and (len(s[3]) != 1 or s[3][0][0] != 'if' or all_else(s[3][0]))


# ---- modules --------------------------------------------------------------------------
class Mod(object):
    def __init__(self, name):
        self.name = name
        self.params = []      # (name, tree, width or None, signed)
        self.locals = []
        self.ports = []       # (dir, V, is reg)
        self.items = []       # tuples
        self.style = 'ansi'
        self.pstyle = 'head'

    def text(self):
        o = ['module %s' % self.name]

        def par(kw, p):
            return '%s %s%s%s = %s' % (kw, 'signed ' if p[3] else '', '[%d:0] ' % (p[2] - 1) if p[2] else '', p[0], txt(p[1]))
        if self.params and self.pstyle == 'head':
            o.append('#(\n%s\n)' % ',\n'.join('  ' + par('parameter', p) for p in self.params))
        late = []
        if self.style == 'ansi':
            o.append('(\n%s\n);' % ',\n'.join('  ' + v.decl(d + (' reg' if r else '')) for d, v, r in self.ports))
        else:
            o.append('(\n%s\n);' % ',\n'.join('  ' + v.name for d, v, r in self.ports))
        if self.params and self.pstyle == 'body':
            o += ['  %s;' % par('parameter', p) for p in self.params]
        if self.style != 'ansi':
            for d, v, r in self.ports:
                o.append('  %s;' % v.decl(d + (' reg' if r and self.style == 'oreg' else '')))
                if r and self.style != 'oreg':
                    o.append('  %s;' % v.decl('reg'))
        o += ['  %s;' % par('localparam', p) for p in self.locals]
        o += [self.item(x, 1) for x in self.items]
        o.append('endmodule\n')
        return '\n'.join(o)

    def item(self, x, ind):
        p = '  ' * ind
        t = x[0]
        if t == 'decl':
            return '%s%s;' % (p, x[1].decl())
        if t == 'rdecl':
            return '%s%s = %s;' % (p, x[1].decl(), txt(x[2]))
        if t == 'decls':       # several names of one type
            return '%s%s;' % (p, x[1][0].decl() + ''.join(', ' + v.name for v in x[1][1:]))
        if t == 'wdecl':
            return '%s%s = %s;' % (p, x[1].decl(), txt(x[2]))
        if t == 'assign':
            return '%sassign %s%s = %s;' % (p, '#1 ' if x[3] else '', txt(x[1]), txt(x[2]))
        if t == 'comb':
            return '%salways @(%s)\n%s' % (p, x[1], blk(x[2], ind + 1)) if x[1] != '*' else '%salways @*\n%s' % (p, blk(x[2], ind + 1))
        if t == 'proc':
            return '%salways @(%s)\n%s' % (p, ' or '.join('%s %s' % ('posedge' if l else 'negedge', s) for s, l in x[1]),
                                           body(x[2], ind + 1))
        if t == 'initial':
            return '%sinitial\n%s' % (p, body(x[1], ind + 1))
        if t == 'func':
            f = x[1]
            return '%sfunction %s%s%s;\n%s%s%sendfunction' % (
                p, 'signed ' if f['ret'].s else '', f['ret'].rng(), f['name'],
                ''.join('%s  %s;\n' % (p, v.decl('input')) for v in f['args']),
                ''.join('%s  %s;\n' % (p, v.decl()) for v in f['vars']) + (body(f['body'], ind + 1)), p)
        if t == 'taskd':
            f = x[1]
            return '%stask %s;\n%s%s%sendtask' % (
                p, f['name'], ''.join('%s  %s;\n' % (p, v.decl('input')) for v in f['args']),
                ''.join('%s  %s;\n' % (p, v.decl()) for v in f['vars']) + body(f['body'], ind + 1), p)
        if t == 'inst':
            _, m, name, pa, po, named, pnamed = x
            ps = ''
            if pa:
                ps = ' #(%s)' % (', '.join('.%s(%s)' % (n, txt(e)) for n, e in pa) if pnamed else ', '.join(txt(e) for n, e in pa))
            c = ', '.join('.%s(%s)' % (n, txt(e) if e else '') if named else txt(e) for n, e in po)
            return '%s%s%s %s(%s);' % (p, m.name, ps, name, c)
        if t == 'gen':
            _, gv, lo, n, label, its, wrap = x
            o = ['%sgenerate' % p if wrap else None,
                 '%sfor(%s = %d; %s < %s; %s = %s + 1) begin : %s' % (p, gv, lo, gv, txt(n), gv, gv, label)]
            o += [self.item(i, ind + 1) for i in its]
            o += ['%send' % p, '%sendgenerate' % p if wrap else None]
            return '\n'.join(y for y in o if y is not None)
        if t == 'genif':
            _, c, lt, its, lf, ifs, wrap = x
            o = ['%sgenerate' % p if wrap else None, '%sif(%s) begin%s' % (p, txt(c), ' : ' + lt if lt else '')]
            o += [self.item(i, ind + 1) for i in its]
            o.append('%send' % p)
            if ifs is not None:
                o.append('%selse begin%s' % (p, ' : ' + lf if lf else ''))
                o += [self.item(i, ind + 1) for i in ifs]
                o.append('%send' % p)
            o.append('%sendgenerate' % p if wrap else None)
            return '\n'.join(y for y in o if y is not None)
        if t == 'raw':
            return p + x[1]
        raise Exception(t)


# ---- elaboration ----------------------------------------------------------------------
def cval(e, env):
    """value of a constant tree"""
    t = e[0]
    if t == 'k':
        return e[4]
    if t in ('p', 'v', 'hv'):
        return env[e[1]][1]
    a, b = cval(e[1], env), cval(e[2], env)
    return {'+': a + b, '-': a - b, '*': a * b, '<': int(a < b), '==': int(a == b), '>': int(a > b), '&': a & b,
            '!=': int(a != b), '<=': int(a <= b), '>=': int(a >= b)}[t]


class Elab(object):
    def __init__(self):
        self.w, self.s, self.d = [], [], []
        self.init, self.comb, self.proc = [], [], []

    def new(self, w, s, d=0):
        self.w.append(w)
        self.s.append(s)
        self.d.append(d)
        return len(self.w)

    def width(self, v, sc):
        return v.w if isinstance(v.w, int) else sc[v.w[1]][1] + v.w[2]

    def declare(self, v, sc):
        w = 32 if v.kind == 'integer' else self.width(v, sc)
        sc[v.name] = ('v', self.new(w, 1 if v.kind == 'integer' else v.s, v.d), w)

    # expressions; pre collects the assignments of function calls
    def ex(self, e, sc, pre):
        t = e[0]
        if t == 'k':
            return ['k', e[1], e[2], bits(e[4], e[1])]
        if t == 'kx':
            return ['kx', e[1], e[2]]
        if t in ('p', 'v', 'hv'):
            r = sc[e[1]]
            if r[0] == 'k':
                return ['k', r[2], r[3], bits(r[1], r[2])]
            return ['v', r[1]]
        if t == 'mem':
            return ['mem', sc[e[1]][1], self.ex(e[2], sc, pre)]
        if t == 'bit':
            return ['bit', sc[e[1].name][1], self.ex(e[2], sc, pre)]
        if t == 'sl':
            return ['sl', sc[e[1].name][1], e[2], e[3]]
        if t == 'cat':
            return ['cat', [self.ex(x, sc, pre) for x in e[1]]]
        if t == 'rep':
            return ['rep', e[1], self.ex(e[2], sc, pre)]
        if t == 'call':
            return self.inline(sc['()' + e[1]], e[2], sc, pre)
        return [t] + [self.ex(x, sc, pre) for x in e[1:]]

    def inline(self, fs, args, sc, pre):
        f, home = fs
        vals = [self.ex(a, sc, pre) for a in args]
        s2 = dict(home)
        if f.get('ret') is not None:
            self.declare(f['ret'], s2)
            s2[f['name']] = s2[f['ret'].name]
        for v in f['args'] + f['vars']:
            self.declare(v, s2)
        for v, a in zip(f['args'], vals):
            pre.append(['bl', ['v', s2[v.name][1]], a])
        pre += self.stl(f['body'], s2)
        if f.get('ret') is not None:
            return ['v', s2[f['name']][1]]

    def stl(self, ss, sc):
        o = []
        for s in ss:
            o += self.st(s, sc)
        return o

    def st(self, s, sc):
        pre = []
        t = s[0]
        if t in ('nb', 'bl'):
            r = [t, self.ex(s[1], sc, pre), self.ex(s[2], sc, pre)]
        elif t == 'null':
            return []
        elif t == 'blk':
            r = ['blk', self.stl(s[1], sc)]
        elif t == 'if':
            r = ['if', self.ex(s[1], sc, pre), self.stl(s[2], sc), self.stl(s[3], sc)]
        elif t == 'case':
            r = ['case', self.ex(s[1], sc, pre), [[[self.ex(x, sc, pre) for x in l], self.stl(b, sc)] for l, b in s[2]]]
        elif t == 'for':
            r = ['for', self.st(s[1], sc)[0], self.ex(s[2], sc, []), self.st(s[3], sc)[0], self.stl(s[4], sc)]
        elif t == 'while':
            r = ['while', self.ex(s[1], sc, []), self.stl(s[2], sc)]
        elif t == 'rpt':
            r = ['rpt', self.ex(s[1], sc, pre), self.stl(s[2], sc)]
        elif t == 'task':
            self.inline(sc['()' + s[1]], s[2], sc, pre)
            return pre
        return pre + [r]

    def assign(self, lv, e, sc, sce=None):
        pre = []
        r = self.ex(e, sce or sc, pre)
        self.comb.append(pre + [['bl', self.ex(lv, sc, pre), r]])

    def module(self, m, over):
        """declare the module with the given parameter values; returns its scope"""
        sc = {}
        for lst in (m.params, m.locals):
            for n, e, w, s in lst:
                if n in over and lst is m.params:
                    x = over[n]
                else:
                    x = cval(e, sc)
                if w:
                    x &= (1 << w) - 1
                    sc[n] = ('k', x, w, s)
                else:
                    sc[n] = ('k', x, 32, 1)
        for d, v, r in m.ports:
            self.declare(v, sc)
        return sc

    def items(self, its, sc):
        for x in its:
            t = x[0]
            if t == 'decl':
                self.declare(x[1], sc)
            elif t == 'rdecl':
                self.declare(x[1], sc)
                self.init += self.st(['bl', ['v', x[1].name], x[2]], sc)
            elif t == 'decls':
                for v in x[1]:
                    self.declare(v, sc)
            elif t == 'wdecl':
                self.declare(x[1], sc)
                self.assign(['v', x[1].name], x[2], sc)
            elif t == 'assign':
                self.assign(x[1], x[2], sc)
            elif t == 'comb':
                self.comb.append(self.stl(x[2], sc))
            elif t == 'proc':
                self.proc.append(dict(edges=[[sc[s][1], l] for s, l in x[1]], body=self.stl(x[2], sc)))
            elif t == 'initial':
                self.init += self.stl(x[1], sc)
            elif t in ('func', 'taskd'):
                sc['()' + x[1]['name']] = (x[1], sc)
            elif t == 'inst':
                _, m, name, pa, po, named, pnamed = x
                s2 = self.module(m, dict((n, cval(e, sc)) for n, e in pa))
                dirs = dict((v.name, d) for d, v, r in m.ports)
                for n, e in po:
                    if dirs[n] == 'input':
                        self.assign(['v', n], e, s2, sc)
                self.items(m.items, s2)
                for n, e in po:
                    if dirs[n] == 'output' and e is not None:
                        self.assign(e, ['v', n], sc, s2)
                for k, r in s2.items():
                    sc['%s.%s' % (name, k)] = r
            elif t == 'gen':
                _, gv, lo, n, label, sub, wrap = x
                for i in range(lo, cval(n, sc)):
                    s2 = dict(sc)
                    s2[gv] = ('k', i, 32, 1)
                    new = Scoped(s2)
                    self.items(sub, new)
                    for k in new.added:
                        sc['%s[%d].%s' % (label, i, k)] = new[k]
            elif t == 'genif':
                _, c, lt, a, lf, b, wrap = x
                s2 = Scoped(dict(sc))
                if cval(c, sc):
                    self.items(a, s2)
                    lab = lt
                else:
                    self.items(b or [], s2)
                    lab = lf
                if lab:
                    for k in s2.added:
                        sc['%s.%s' % (lab, k)] = s2[k]


class Scoped(dict):
    def __init__(self, d):
        dict.__init__(self, d)
        self.added = set()

    def __setitem__(self, k, v):
        self.added.add(k)
        dict.__setitem__(self, k, v)


def elaborate(m, over):
    e = Elab()
    sc = e.module(m, over)
    e.items(m.items, sc)
    ins = [(v, d) for d, v, r in m.ports if d == 'input' and v.name != 'CLK']
    outs = [(v, d) for d, v, r in m.ports if d == 'output']
    P = dict(w=e.w, s=e.s, d=e.d, clk=sc['CLK'][1], ins=[sc[v.name][1] for v, _ in ins], outs=[sc[v.name][1] for v, _ in outs],
             init=e.init, comb=e.comb, proc=e.proc)
    return P, [(v.name, sc[v.name][2]) for v, _ in ins], [(v.name, sc[v.name][2]) for v, _ in outs]
