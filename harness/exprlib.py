"""Random expression trees, paired with the real veriloggen expression that denotes them."""
from veriloggen import *
import veriloggen.core.vtypes as vt

ARITH = ['+', '-', '*', '/', '%', '&', '|', '^']
CMP = ['<', '<=', '>', '>=', '==', '!=']
PY2 = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
       '/': lambda a, b: a / b, '%': lambda a, b: a % b, '&': lambda a, b: a & b,
       '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '<<': lambda a, b: a << b,
       '>>': lambda a, b: a >> b, '**': lambda a, b: a ** b,
       '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
       '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
ALT2 = {'+': vt.Add, '-': vt.Sub, '*': vt.Mul, '/': vt.Div}
F2 = {'+': vt.Plus, '-': vt.Minus, '*': vt.Times, '/': vt.Divide, '%': vt.Mod, '&': vt.And,
      '|': vt.Or, '^': vt.Xor, '~^': vt.Xnor, '<<': vt.Sll, '>>': vt.Srl, '>>>': vt.Sra,
      '**': vt.Power, '<': vt.LessThan, '<=': vt.LessEq, '>': vt.GreaterThan,
      '>=': vt.GreaterEq, '==': vt.Eq, '!=': vt.NotEq, '===': vt.Eql, '!==': vt.NotEql,
      '&&': vt.Land, '||': vt.Lor}
F1 = {'r&': vt.Uand, 'r~&': vt.Unand, 'r|': vt.Uor, 'r~|': vt.Unor, 'r^': vt.Uxor,
      'r~^': vt.Uxnor, 'u!': vt.Ulnot, 'u-': vt.Uminus, 'u+': vt.Uplus, 'u~': vt.Unot}


def bits(v, w):
    return [(v >> i) & 1 for i in range(w)]


def K(v, w=32, s=1):
    # a negative literal is the unary minus of a literal (IEEE 1364, 3.5.1)
    if v < 0:
        return ['u-', ['k', w, s, bits(-v, w)]]
    return ['k', w, s, bits(v, w)]


def show(t):
    if t[0] == 'k':
        return "%d'%s%d" % (t[1], 's' if t[2] else '', sum(b << i for i, b in enumerate(t[3])))
    if t[0] == 'v':
        return 'x%d' % (t[1] - 1)
    return '(' + ' '.join([t[0]] + [('[%s]' % ', '.join(show(y) for y in x)) if t[0] == 'cat' else
                                    show(x) if isinstance(x, list) else str(x) for x in t[1:]]) + ')'


class Gen(object):
    """vars_: list of (veriloggen object, width, signed)."""

    def __init__(self, rng, vars_, ops=None):
        self.rng = rng
        self.vars = vars_

    # -- every method returns (tree, real object)
    def var(self, k=None):
        if k is None:
            k = self.rng.randrange(len(self.vars))
        return ['v', k + 1], self.vars[k][0]

    def const(self, sized=False):
        r = self.rng
        k = r.random()
        w = r.choice([1, 2, 3, 4, 5, 8, 13, 32, 33, 40])
        v = r.randrange(2 ** w) if r.random() < 0.6 else r.choice([0, 1, 2, 2 ** w - 1, 2 ** (w - 1)])
        v %= 2 ** w
        if not sized and k < 0.45:
            v = r.choice([0, 1, 2, 3, 5, 7, 8, 100, 255, 2 ** 31 - 1, -1, -2, -5, r.randrange(-40, 300)])
            return K(v), v
        if not sized and k < 0.5:
            b = r.random() < 0.5
            return K(int(b)), b
        if not sized and k < 0.6:
            v = r.choice([0, 1, 6, 77, -3])
            return K(v), vt.Int(v)
        if not sized and k < 0.68:
            v = r.randrange(2 ** 32)
            base, f = r.choice([(16, '%x'), (8, '%o')])
            if r.random() < 0.5:
                return K(v, 32, 0), vt.Int(v, base=base)
            return K(v, 32, 0), vt.Int({16: "'h", 8: "'o"}[base] + f % v)
        if k < 0.78:
            return K(v, w, 0), vt.Int(v, width=w, base=r.choice([None, 2, 8, 10, 16]))
        if k < 0.86:
            return K(v, w, 1), vt.Int(v, width=w, base=r.choice([None, 2, 8, 10, 16]), signed=True)
        if k < 0.90 and w > 1:
            v = -r.randrange(1, 2 ** (w - 1) + 1)
            return K(v, w, 1), vt.Int(v, width=w)
        s = r.random() < 0.5
        base = r.choice('hdob')
        t = {'h': '%x' % v, 'd': '%d' % v, 'o': '%o' % v, 'b': bin(v)[2:]}[base]
        if len(t) > 2 and r.random() < 0.4:
            t = t[0] + '_' + t[1:]
        return K(v, w, int(s)), vt.Int("%d'%s%s%s" % (w, 's' if s else '', base, t))

    def leaf(self, numeric=False):
        if self.rng.random() < 0.7 or numeric:
            return self.var()
        return self.const()

    def sel(self):
        """bit and part selects of a variable"""
        r = self.rng
        k = r.randrange(len(self.vars))
        x, w, _ = self.vars[k]
        c = r.random()
        if c < 0.2:
            i = r.randrange(w)
            return ['bit', k + 1, K(i)], x[i]
        if c < 0.3:
            i = r.randrange(w)
            return ['bit', k + 1, K(i)], x[i - w]
        if c < 0.45:
            t, o = self.expr(1)
            return ['bit', k + 1, t], vt.Pointer(x, o) if not isinstance(o, vt._Numeric) else x[o]
        a = r.randrange(w)
        b = r.randrange(a + 1, w + 1)
        if c < 0.55:
            return ['sl', k + 1, b - 1, a], x.slice(b - 1, a)
        if c < 0.75:
            ra = r.choice([a, a - w] if a else [a, None])
            rb = r.choice([b, b - w] if b < w else [b, None])
            return ['sl', k + 1, b - 1, a], x[ra:rb]
        if c < 0.9:
            st = r.choice([1, 2, 3])
            idx = list(range(a, b, st))
            rb = r.choice([b, b - w] if b < w else [b, None])
            return ['cat', [['bit', k + 1, K(i)] for i in reversed(idx)]], x[a:rb:st]
        return ['cat', [['bit', k + 1, K(i)] for i in range(w)]], vt.Cat(*[b for b in x])

    def sized(self, d):
        """an expression with a size of its own (for concatenation)"""
        t, o = self.expr(d) if self.rng.random() < 0.85 else self.const(True)
        if isinstance(o, (int, bool)) or (isinstance(o, vt.Int) and o.width is None) or self.unsz(t):
            return self.var()
        return t, o

    def unsz(self, t):
        """some operand is an unsized literal that decides the width"""
        if t[0] == 'k':
            return t[1] == 32
        if t[0] in ('+', '-', '*', '/', '%', '&', '|', '^', '~^'):
            return self.unsz(t[1]) or self.unsz(t[2])
        if t[0] == '?':
            return self.unsz(t[2]) or self.unsz(t[3])
        if t[0] in ('u-', 'u+', 'u~', '<<', '>>', '>>>', '**', '$s', '$u'):
            return self.unsz(t[1])
        return False

    def pair(self, d):
        r = self.rng
        while True:
            a = self.expr(d)
            b = self.expr(d)
            if isinstance(a[1], vt._Numeric) or isinstance(b[1], vt._Numeric):
                return a, b

    def expr(self, d):
        r = self.rng
        if d <= 0:
            return self.leaf()
        k = r.random()
        if k < 0.38:
            op = r.choice(ARITH + ['+', '-', '*', '~^'])
            (ta, a), (tb, b) = self.pair(d - 1)
            f = F2[op] if op not in PY2 or r.random() < 0.2 else PY2[op]
            if op in ALT2 and r.random() < 0.2:
                f = ALT2[op]
            if op == '/' and f is PY2['/'] and r.random() < 0.5:
                f = lambda a, b: a // b
            return [op, ta, tb], f(a, b)
        if k < 0.48:
            op = r.choice(CMP + ['===', '!=='])
            (ta, a), (tb, b) = self.pair(d - 1)
            if op not in PY2 or r.random() < 0.2:
                return [op, ta, tb], F2[op](a, b)
            if not isinstance(a, vt._Numeric):   # python turns a < b into b > a
                sw = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
                return [sw[op], tb, ta], PY2[op](a, b)
            return [op, ta, tb], PY2[op](a, b)
        if k < 0.58:
            op = r.choice(['<<', '>>', '>>>'])
            ta, a = self.expr(d - 1)
            if r.random() < 0.5:
                n = r.randrange(0, 9)
                tb, b = K(n), n
            else:
                tb, b = self.var() if r.random() < 0.6 else self.expr(d - 1)
            if not isinstance(a, vt._Numeric) and not isinstance(b, vt._Numeric):
                ta, a = self.var()
            if op == '>>>':
                if isinstance(a, vt._Numeric) and r.random() < 0.7:
                    return [op, ta, tb], a.sra(b)
                return [op, ta, tb], vt.Sra(a, b)
            return [op, ta, tb], PY2[op](a, b)
        if k < 0.62:
            ta, a = self.expr(d - 1)
            n = r.randrange(0, 5)
            if not isinstance(a, vt._Numeric):
                ta, a = self.var()
            return ['**', ta, K(n)], a ** n
        if k < 0.72:
            op = r.choice(['u-', 'u-', 'u+', 'u~', 'u~'])
            ta, a = self.expr(d - 1)
            if not isinstance(a, vt._Numeric):
                return [op, ta], F1[op](a)
            return [op, ta], {'u-': lambda x: -x, 'u+': lambda x: +x, 'u~': lambda x: ~x}[op](a)
        if k < 0.78:
            op = r.choice(['r&', 'r~&', 'r|', 'r~|', 'r^', 'r~^', 'u!', 'u!'])
            ta, a = self.expr(d - 1)
            if self.unsz(ta):
                ta, a = self.var()
            return [op, ta], (vt.Not if op == 'u!' and r.random() < 0.6 else F1[op])(a)
        if k < 0.83:
            op = r.choice(['&&', '||'])
            if r.random() < 0.4:
                xs = [self.expr(d - 1) for _ in range(r.randint(1, 3))]
                xs = [x if isinstance(x[1], vt._Numeric) else self.var() for x in xs]
                t = xs[0][0]
                for x in xs[1:]:
                    t = [op, t, x[0]]
                f = r.choice([Ands, AndList]) if op == '&&' else r.choice([Ors, OrList])
                return t, f(*[x[1] for x in xs])
            (ta, a), (tb, b) = self.pair(d - 1)
            return [op, ta, tb], F2[op](a, b)
        if k < 0.88:
            c = self.expr(d - 1)
            t = self.expr(d - 1)
            f = self.expr(d - 1)
            if not isinstance(c[1], vt._Numeric):
                if isinstance(c[1], (int, bool)):
                    return (t if c[1] else f)[0], Mux(c[1], t[1], f[1])
                c = self.var()
            return ['?', c[0], t[0], f[0]], r.choice([Mux, Cond])(c[1], t[1], f[1])
        if k < 0.92:
            xs = [self.sized(d - 1) for _ in range(r.randint(1, 3))]
            return ['cat', [x[0] for x in xs]], Cat(*[x[1] for x in xs])
        if k < 0.94:
            ta, a = self.sized(d - 2)
            n = r.randint(1, 3)
            return ['rep', n, ta], (a.repeat(n) if r.random() < 0.5 else Repeat(a, n))
        if k < 0.96:
            ta, a = self.var()
            f = r.choice(['abs', 'sign', 'comp'])
            sg = ['<', ta, K(0, 32, 1)]
            c2 = ['+', ['u~', ta], K(1)]
            if f == 'abs':
                return ['?', sg, c2, ta], r.choice([Abs, abs])(a)
            if f == 'sign':
                return sg, Sign(a)
            return c2, Complement2(a)
        if k < 0.98:
            ta, a = self.expr(d - 1)
            if self.unsz(ta) or not isinstance(a, vt._Numeric):
                ta, a = self.var()
            if r.random() < 0.6:
                return ['$s', ta], SystemTask('signed', a)
            return ['$u', ta], SystemTask('unsigned', a)
        return self.sel()


def width(t, ws):
    o = t[0]
    if o == 'v':
        return ws[t[1] - 1]
    if o == 'k':
        return t[1]
    if o in ('+', '-', '*', '/', '%', '&', '|', '^', '~^'):
        return max(width(t[1], ws), width(t[2], ws))
    if o in ('<<', '>>', '>>>', '**', 'u-', 'u+', 'u~', '$s', '$u'):
        return width(t[1], ws)
    if o == '?':
        return max(width(t[2], ws), width(t[3], ws))
    if o == 'cat':
        return sum(width(x, ws) for x in t[1])
    if o == 'rep':
        return t[1] * width(t[2], ws)
    if o == 'sl':
        return t[2] - t[3] + 1
    return 1


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, list) and x and isinstance(x[0], str)) + \
        (sum(size(x) for x in t[1]) if t[0] == 'cat' else 0)


def ops(t, acc=None):
    acc = [] if acc is None else acc
    acc.append(t[0])
    for x in (t[1] if t[0] == 'cat' else t[1:]):
        if isinstance(x, list) and x and isinstance(x[0], str):
            ops(x, acc)
    return acc


def maxwidth(t, ws):
    """the widest sub-expression"""
    m = width(t, ws)
    for x in (t[1] if t[0] == 'cat' else t[1:]):
        if isinstance(x, list) and x and isinstance(x[0], str):
            m = max(m, maxwidth(x, ws))
    return m


def sound(t, ws):
    """iverilog 12 divides vectors of more than 64 bits incorrectly"""
    m = maxwidth(t, ws)
    return m <= 100 and (m <= 60 or not set(ops(t)) & {'/', '%', '**'})
