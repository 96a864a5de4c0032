"""Random thread programs: syntax trees, Python source text, and a small evaluator
that only decides whether a program stays inside the supported ranges (the oracle is
spec/ThreadSem.tla)."""

LIM = 2 ** 24


class Reject(Exception):
    pass


# ---------------------------------------------------------------------------
# source text
# ---------------------------------------------------------------------------
def ex(e, va='rest'):
    t = e[0]
    if t == 'i':
        return str(e[1]) if e[1] >= 0 else '(%d)' % e[1]
    if t in ('v', 'g'):
        return e[1]
    if t == 'u':
        return '(%s %s)' % (e[1], ex(e[2])) if e[1] == 'not' else '(%s%s)' % (e[1], ex(e[2]))
    if t == 'b':
        return '(%s %s %s)' % (ex(e[2]), e[1], ex(e[3]))
    if t == 'cmp':
        s = ex(e[2][0])
        for o, x in zip(e[1], e[2][1:]):
            s += ' %s %s' % (o, ex(x))
        return '(%s)' % s
    if t in ('and', 'or'):
        return '(%s)' % (' %s ' % t).join(ex(x) for x in e[1])
    if t == '?':
        return '(%s if %s else %s)' % (ex(e[2]), ex(e[1]), ex(e[3]))
    if t == 'bit':
        return '%s[%d]' % (ex(e[1]), e[2])
    if t == 'sl':
        return '%s[%d:%d]' % (ex(e[1]), e[2], e[3])
    if t == 'call':
        a = [ex(x) for x in e[2]] + ['%s=%s' % (k, ex(x)) for k, x in e[3]]
        return '%s(%s)' % (e[1], ', '.join(a))
    raise AssertionError(t)


class Src(object):
    def __init__(self, tag, rng=None):
        self.tag = tag
        self.rng = rng
        self.L = []

    def pr(self, es, ind):
        """print in one of the supported styles; every line starts with the tag"""
        xs = [ex(x) for x in es]
        k = self.rng.randrange(4) if self.rng else 0
        fm = ' '.join(['%d'] * len(xs))
        if k == 0:
            s = "print('%s %s' %% (%s,))" % (self.tag, fm, ', '.join(xs))
        elif k == 1:
            s = "print('%s', %s)" % (self.tag, ', '.join(xs))
        elif k == 2 and not any("'" in x or '"' in x for x in xs):
            s = 'print(f"%s %s")' % (self.tag, ' '.join('{%s}' % x for x in xs))
        else:
            s = "print(('%s', %s))" % (self.tag, ', '.join(xs))
        self.L.append(ind + s)

    def body(self, b, ind):
        if not b:
            self.L.append(ind + 'pass')
        for t in b:
            self.stmt(t, ind)

    def els(self, b, ind):
        if b:
            self.L.append(ind + 'else:')
            self.body(b, ind + '  ')

    def stmt(self, t, ind):
        k = t[0]
        A = self.L.append
        if k == '=':
            A(ind + ' = '.join(list(t[1]) + [ex(t[2])]))
        elif k == 't=':
            A(ind + ', '.join(t[1]) + ' = ' + ', '.join(ex(x) for x in t[2]))
        elif k == 'a=':
            A(ind + '%s %s= %s' % (t[1], t[2], ex(t[3])))
        elif k == 'g=':
            A(ind + '%s.value = %s' % (t[1], ex(t[2])))
        elif k == 'bit=':
            A(ind + '%s[%d] = %s' % (t[1], t[2], ex(t[3])))
        elif k == 'if':
            A(ind + 'if %s:' % ex(t[1]))
            self.body(t[2], ind + '  ')
            e = t[3]
            if len(e) == 1 and e[0][0] == 'if' and (self.rng is None or self.rng.random() < 0.7):
                n = len(self.L)
                self.stmt(e[0], ind)
                self.L[n] = ind + 'el' + self.L[n][len(ind):]
            else:
                self.els(e, ind)
        elif k == 'wh':
            A(ind + 'while %s:' % ex(t[1]))
            self.body(t[2], ind + '  ')
            self.els(t[3], ind)
        elif k == 'for':
            lo, hi, st = t[2], t[3], t[4]
            if st == ['i', 1] and lo == ['i', 0]:
                r = ex(hi)
            elif st == ['i', 1]:
                r = '%s, %s' % (ex(lo), ex(hi))
            else:
                r = '%s, %s, %s' % (ex(lo), ex(hi), ex(st))
            A(ind + 'for %s in range(%s):' % (t[1], r))
            self.body(t[5], ind + '  ')
            self.els(t[6], ind)
        elif k == 'forl':
            A(ind + 'for %s in (%s,):' % (t[1], ', '.join(ex(x) for x in t[2])))
            self.body(t[3], ind + '  ')
            self.els(t[4], ind)
        elif k == 'forv':
            A(ind + 'for %s in rest:' % t[1])
            self.body(t[2], ind + '  ')
            self.els(t[3], ind)
        elif k == 'brk':
            A(ind + 'break')
        elif k == 'cnt':
            A(ind + 'continue')
        elif k == 'ret':
            A(ind + 'return' + (' ' + ex(t[1][0]) if t[1] else ''))
        elif k == 'pr':
            self.pr(t[1], ind)
        elif k == 'do':
            A(ind + ex(t[1]))
        elif k == 'pass':
            A(ind + 'pass')
        else:
            raise AssertionError(k)

    def func(self, name, f, ind, tail=()):
        ps = list(f['ps'])
        nd = len(f['ds'])
        ps = [p if i < len(ps) - nd else '%s=%d' % (p, f['ds'][i - (len(ps) - nd)])
              for i, p in enumerate(ps)]
        if f.get('va'):
            ps.append('*rest')
        self.L.append('%sdef %s(%s):' % (ind, name, ', '.join(ps)))
        self.body(f['body'], ind + '  ')
        for t in tail:
            self.L.append(ind + '  ' + t)


# ---------------------------------------------------------------------------
# range filter
# ---------------------------------------------------------------------------
class Filter(object):
    def __init__(self, P, lim=LIM, steps=1500, outs=120):
        self.P = P
        self.lim = lim
        self.steps = steps
        self.outs = outs

    def ck(self, v):
        if not -self.lim < v < self.lim:
            raise Reject('range')
        return v

    def ev(self, e, s):
        self.steps -= 1
        if self.steps < 0:
            raise Reject('steps')
        t = e[0]
        if t == 'i':
            return e[1]
        if t == 'v':
            if e[1] not in s['env']:
                raise Reject('unbound ' + e[1])
            return s['env'][e[1]]
        if t == 'g':
            return s['g'][e[1]]
        if t == 'u':
            a = self.ev(e[2], s)
            return self.ck({'-': -a, '+': a, '~': -a - 1, 'not': int(not a)}[e[1]])
        if t == 'b':
            a = self.ev(e[2], s)
            b = self.ev(e[3], s)
            o = e[1]
            if o in '+-*':
                return self.ck({'+': a + b, '-': a - b, '*': a * b}[o])
            if o in ('/', '//', '%'):
                if a < 0 or b <= 0:
                    raise Reject('div')
                return a % b if o == '%' else a // b
            if o == '**':
                if not 0 <= b <= 8 or abs(a) > 30:
                    raise Reject('pow')
                return self.ck(a ** b)
            if o in ('<<', '>>'):
                if not 0 <= b <= 12:
                    raise Reject('shift')
                return self.ck(a << b if o == '<<' else a >> b)
            if a < 0 or b < 0:
                raise Reject('bitwise')
            return {'&': a & b, '|': a | b, '^': a ^ b}[o]
        if t == 'cmp':
            v = [self.ev(x, s) for x in e[2]]
            import operator as op
            f = {'<': op.lt, '<=': op.le, '>': op.gt, '>=': op.ge, '==': op.eq, '!=': op.ne}
            return int(all(f[o](v[i], v[i + 1]) for i, o in enumerate(e[1])))
        if t == 'and':
            return int(all([self.ev(x, s) for x in e[1]]))
        if t == 'or':
            return int(any([self.ev(x, s) for x in e[1]]))
        if t == '?':
            v = [self.ev(x, s) for x in e[1:]]
            return v[1] if v[0] else v[2]
        if t == 'bit':
            return (self.ev(e[1], s) >> e[2]) & 1
        if t == 'sl':
            return (self.ev(e[1], s) >> e[2]) & ((1 << (e[3] - e[2])) - 1)
        if t == 'call':
            return self.call(e, s)
        raise AssertionError(t)

    def call(self, e, s):
        f = self.P[e[1]]
        a = [self.ev(x, s) for x in e[2]]
        k = [(n, self.ev(x, s)) for n, x in e[3]]
        env = dict(zip(f['ps'][len(f['ps']) - len(f['ds']):], f['ds']))
        env.update(k)
        env.update(zip(f['ps'], a))
        r = dict(env=env, g=s['g'], out=s['out'], ctl='n', rv=0, va=a[len(f['ps']):])
        self.seq(f['body'], r)
        return r['rv']

    def seq(self, b, s):
        for t in b:
            if s['ctl'] != 'n':
                return
            self.st(t, s)

    def loop(self, s, body, els, it):
        for _ in it():
            self.steps -= 1
            if self.steps < 0:
                raise Reject('steps')
            self.seq(body, s)
            if s['ctl'] == 'b':
                s['ctl'] = 'n'
                return
            if s['ctl'] == 'r':
                return
            s['ctl'] = 'n'
        self.seq(els, s)

    def st(self, t, s):
        k = t[0]
        if k == '=':
            v = self.ev(t[2], s)
            for x in t[1]:
                s['env'][x] = v
        elif k == 't=':
            s['env'].update(zip(t[1], [self.ev(x, s) for x in t[2]]))
        elif k == 'a=':
            v = self.ev(t[3], s)
            s['env'][t[1]] = self.ev(['b', t[2], ['v', t[1]], ['i', v]], s)
        elif k == 'g=':
            s['g'][t[1]] = self.ev(t[2], s)
        elif k == 'bit=':
            v = self.ev(t[3], s)
            a = s['env'][t[1]]
            s['env'][t[1]] = self.ck((a & ~(1 << t[2])) | ((v & 1) << t[2]))
        elif k == 'if':
            self.seq(t[2] if self.ev(t[1], s) else t[3], s)
        elif k == 'wh':
            def it():
                while self.ev(t[1], s):
                    yield 0
            self.loop(s, t[2], t[3], it)
        elif k == 'for':
            lo, hi, st = [self.ev(x, s) for x in t[2:5]]
            if st == 0:
                raise Reject('step')

            def it():
                for i in range(lo, hi, st):
                    s['env'][t[1]] = i
                    yield 0
            self.loop(s, t[5], t[6], it)
        elif k in ('forl', 'forv'):
            vs = [self.ev(x, s) for x in t[2]] if k == 'forl' else s['va']

            def it():
                for i in vs:
                    s['env'][t[1]] = i
                    yield 0
            self.loop(s, t[-2], t[-1], it)
        elif k == 'brk':
            s['ctl'] = 'b'
        elif k == 'cnt':
            s['ctl'] = 'c'
        elif k == 'ret':
            if t[1]:
                s['rv'] = self.ev(t[1][0], s)
            s['ctl'] = 'r'
        elif k == 'pr':
            s['out'].append([self.ev(x, s) for x in t[1]])
            if len(s['out']) > self.outs:
                raise Reject('prints')
        elif k == 'do':
            self.ev(t[1], s)

    def run(self, args, g):
        s = dict(env={}, g=dict(g), out=[], ctl='n', rv=0, va=[])
        self.call(['call', 'main', [['i', a] for a in args], []], s)
        return s


# ---------------------------------------------------------------------------
# generator
# ---------------------------------------------------------------------------
NAMES = ['a', 'b', 'c', 'd', 'x', 'y']


class Gen(object):
    def __init__(self, rng, size=12, nobit=False):
        self.r = rng
        self.size = size
        self.P = {}
        self.sig = {}
        self.gs = ['g0', 'g1']
        self.pid = 0
        self.lv = 0
        self.nobit = nobit

    def program(self):
        r = self.r
        for k in range(r.choice([0, 0, 1, 1, 2, 3])):
            self.function('f%d' % k)
        ps = r.sample(NAMES, r.choice([0, 0, 1, 2]))
        self.left = self.size
        self.isf = False
        body = self.block(set(ps), 0, None)
        body += [['pr', [['i', 999]] + [['v', p] for p in ps]]]
        self.P['main'] = dict(ps=ps, ds=[], body=body)
        args = [r.randint(-5, 20) for _ in ps]
        g = {x: r.randint(-3, 9) for x in self.gs}
        return self.P, args, g

    def function(self, name):
        r = self.r
        self.left = r.choice([1, 2, 4])
        self.isf = True
        ps = r.sample(NAMES, r.choice([0, 1, 1, 2, 3]))
        nd = r.choice([0, 0, 1, 2])
        ds = [r.randint(-4, 9) for _ in range(min(nd, len(ps)))]
        va = bool(not ds and r.random() < 0.25)
        self.retv = r.random() < 0.75
        env = set(ps)
        body = []
        if va:
            self.lv += 1
            x = 'w%d' % self.lv
            body.append(['=', ['acc'], ['i', 0]])
            env = env | {'acc'}
            body.append(['forv', x, [['a=', 'acc', '+', ['v', x]]] + self.block(env | {x}, 2, 'forv', 2),
                         self.block(env, 2, None, 1) if r.random() < 0.3 else []])
        body += self.block(env, 1, None)
        if self.retv:
            body.append(['ret', [self.expr(env, 2, calls=True)]])
        self.P[name] = dict(ps=ps, ds=ds, body=body, va=va)
        self.sig[name] = (ps, ds, va, self.retv)

    # -- expressions
    def leaf(self, env, g=False):
        r = self.r
        if g and r.random() < 0.15:
            return ['g', r.choice(self.gs)]
        if env and r.random() < 0.75:
            return ['v', r.choice(sorted(env))]
        return ['i', r.choice([0, 1, 2, 3, 5, 7, 10, -1, -2, 4, 8, 100])]

    def expr(self, env, d, calls=False, g=True):
        r = self.r
        if calls and self.sig and r.random() < 0.3:
            g = False
            c = self.callx(env, True)
            if c is not None:
                if r.random() < 0.6:
                    return c
                o = r.choice('+-*')
                e2 = self.expr(env, 1, calls=True, g=False)
                return ['b', o, c, e2] if r.random() < 0.5 else ['b', o, e2, c]
        if calls:
            g = g and r.random() < 0.4
            calls = False
        if d <= 0 or r.random() < 0.3:
            return self.leaf(env, g)
        k = r.random()
        if k < 0.6:
            o = r.choice(['+', '+', '-', '-', '*', '//', '%', '/', '&', '|', '^', '<<', '>>', '**'])
            a = self.expr(env, d - 1, g=g)
            b = self.expr(env, d - 1, g=g)
            if o == '/' and not env:
                o = '//'
            if o == '/':
                a = ['v', r.choice(sorted(env))]
            if o in ('//', '%', '/') and (r.random() < 0.8 or not vars_(b)):
                b = ['i', r.choice([1, 2, 3, 4, 7, 10])]
            if o in ('<<', '>>'):
                b = ['i', r.choice([0, 1, 2, 3])] if r.random() < 0.8 else self.leaf(env)
            if o == '**':
                if r.random() < 0.5 or not vars_(b):
                    b = ['i', r.choice([0, 1, 2, 3])]
                else:
                    a = ['i', r.choice([2, 3])]
            return ['b', o, a, b]
        if k < 0.7:
            return ['u', r.choice(['-', '+', '~']), self.expr(env, d - 1, g=g)]
        if k < 0.85:
            return ['?', self.cond(env, d - 1, g), self.expr(env, d - 1, g=g), self.expr(env, d - 1, g=g)]
        return self.leaf(env, g)

    def cond(self, env, d, g=True, calls=False):
        """a truth value"""
        r = self.r
        if calls and self.sig and r.random() < 0.25:
            c = self.callx(env, True)
            if c is not None:
                return ['cmp', [r.choice(['<', '>', '!=', '=='])], [c, self.expr(env, 1, g=False)]]
        k = r.random()
        if d <= 0 or k < 0.6:
            n = r.choice([1, 1, 1, 2, 3])
            es = [self.expr(env, 1, g=g) for _ in range(n + 1)]
            return ['cmp', [r.choice(['<', '<=', '>', '>=', '==', '!=']) for _ in range(n)], es]
        if k < 0.8:
            return [r.choice(['and', 'or']), [self.cond(env, d - 1, g) for _ in range(r.choice([2, 2, 3]))]]
        if k < 0.9:
            return ['u', 'not', self.cond(env, d - 1, g)]
        return self.leaf(env, g)

    def callx(self, env, need):
        r = self.r
        fs = [f for f, s in self.sig.items() if s[3] or not need]
        if not fs:
            return None
        f = r.choice(sorted(fs))
        ps, ds, va, _ = self.sig[f]
        nreq = len(ps) - len(ds)
        npos = r.randint(max(0, nreq - 1), len(ps))
        kw = []
        for i in range(npos, len(ps)):
            if i < nreq or r.random() < 0.5:
                kw.append([ps[i], self.expr(env, 1, g=False)])
        r.shuffle(kw)
        args = [self.expr(env, 1, calls=r.random() < 0.15, g=False) for _ in range(npos)]
        if va and npos == len(ps):
            args += [self.expr(env, 1, g=False) for _ in range(r.choice([0, 1, 2, 3]))]
        return ['call', f, args, kw]

    # -- statements; env is updated with definitely assigned names
    def block(self, env, depth, loop, n=None):
        r = self.r
        out = []
        for _ in range(n if n is not None else r.choice([1, 2, 3, 3, 4]) if depth else self.size):
            if self.left <= 0 and out:
                break
            out += self.stmt(env, depth, loop)
        if not out:
            out = [['pass']]
        return out

    def pr(self, env):
        r = self.r
        self.pid += 1
        es = [['i', self.pid]]
        for _ in range(r.choice([1, 1, 2, 3])):
            es.append(self.expr(env, 1, calls=r.random() < 0.2))
        # an expression with a call must not also look at an object
        if any(has(x, 'call') for x in es) and any(has(x, 'g') for x in es):
            es = [['i', self.pid]] + [self.leaf(env) for _ in es[1:]]
        return ['pr', es]

    def target(self, env):
        return self.r.choice(NAMES)

    def stmt(self, env, depth, loop):
        r = self.r
        self.left -= 1
        k = r.random()
        locked = getattr(self, 'locked', set())
        tg = [x for x in NAMES if x not in locked]
        if k < 0.22:
            return [self.pr(env)]
        if k < 0.36 and tg:
            xs = r.sample(tg, r.choice([1, 1, 1, 2]) if len(tg) > 1 else 1)
            j = r.random()
            if j < 0.12:
                e = self.cond(env, 1)
            elif j < 0.2 and env:
                v = ['v', r.choice(sorted(env))]
                a = r.randint(0, 6)
                e = ['bit', v, a] if r.random() < 0.5 else ['sl', v, a, r.randint(a + 1, 9)]
            else:
                e = self.expr(env, 2, calls=True)
            env.update(xs)
            return [['=', xs, e]]
        if k < 0.42 and len(tg) > 1:
            xs = r.sample(tg, 2)
            es = [self.expr(env, 1, g=False, calls=r.random() < 0.2) for _ in xs]
            if r.random() < 0.4 and set(xs) <= env:
                es = [['v', xs[1]], ['v', xs[0]]]
            env.update(xs)
            return [['t=', xs, es]]
        av = sorted(set(tg) & env)
        if k < 0.53 and av:
            o = r.choice(['+', '+', '-', '*', '//', '%', '&', '|', '^', '<<', '>>'])
            e = ['i', r.choice([1, 2, 3])] if o in ('<<', '>>', '//', '%') else self.expr(env, 1, calls=True, g=False)
            return [['a=', r.choice(av), o, e]]
        if k < 0.57:
            return [['g=', r.choice(self.gs), self.expr(env, 2, calls=True)]]
        if k < 0.59 and av and not self.nobit:
            return [['bit=', r.choice(av), r.randint(0, 7), ['cmp', ['<'], [self.leaf(env), self.leaf(env)]]]]
        if k < 0.64 and self.sig:
            c = self.callx(env, False)
            return [['do', c]]
        if k < 0.70 and loop and depth > 1:
            c = self.cond(env, 1, calls=False)
            jump = [[r.choice(['brk', 'cnt'])]]
            if self.isf and r.random() < 0.3:
                jump = [['ret', [self.expr(env, 1)]]] if self.retv else [['ret', []]]
            if r.random() < 0.3:
                jump = [self.pr(env)] + jump
            j = r.random()
            if j < 0.6:
                return [['if', c, jump, []]]
            if j < 0.8:
                return [['if', c, [self.pr(env)], jump]]
            return [['if', c, jump, [self.pr(env)]]]
        if k < 0.73 and self.isf:
            return [['if', self.cond(env, 1), [['ret', [self.expr(env, 1, calls=True)]] if self.retv else ['ret', []]], []]]
        if depth >= 4:
            return [self.pr(env)]
        if k < 0.85:
            c = self.cond(env, 2, calls=True)
            e1 = set(env)
            b = self.block(e1, depth + 1, loop)
            e2 = set(env)
            j = r.random()
            if j < 0.4:
                return [['if', c, b, []]]
            if j < 0.7:
                el = self.block(e2, depth + 1, loop)
            else:
                c2 = self.cond(env, 1, calls=True)
                e3 = set(env)
                b2 = self.block(e3, depth + 1, loop)
                el = [['if', c2, b2, self.block(e2, depth + 1, loop) if r.random() < 0.6 else []]]
                e2 = e2 & e3 if el[0][3] else set(env)
            env.update(e1 & e2)
            return [['if', c, b, el]]
        # loops
        self.lv += 1
        v = 'i%d' % self.lv
        els = []
        kind = r.random()
        if kind < 0.5:
            st = r.choice([1, 1, 1, 1, 2, 3, -1, -2])
            lo = ['i', 0] if r.random() < 0.5 else self.expr(env, 1, g=False)
            if st < 0:
                lo = ['i', r.randint(-1, 5)] if r.random() < 0.5 else self.leaf(env)
            hi = ['i', r.randint(-2, 5)] if r.random() < 0.6 else self.expr(env, 1, g=False, calls=True)
            used = vars_(lo) | vars_(hi)
            save, self.locked = locked, locked | used
            body = self.block(set(env) | {v}, depth + 1, 'for')
            self.locked = save
            if r.random() < 0.2:
                els = self.block(set(env), depth + 1, loop, 1)
            return [['for', v, lo, hi, ['i', st], body, els]]
        if kind < 0.65:
            es = [self.expr(env, 1, g=False, calls=r.random() < 0.2) for _ in range(r.choice([1, 2, 3, 4]))]
            used = set().union(*[vars_(x) for x in es])
            save, self.locked = locked, locked | used
            body = self.block(set(env) | {v}, depth + 1, 'for')
            self.locked = save
            if r.random() < 0.2:
                els = self.block(set(env), depth + 1, loop, 1)
            return [['forl', v, es, body, els]]
        # bounded while: v counts
        n = r.randint(0, 4)
        j = r.random()
        lt = ['cmp', ['<'], [['v', v], ['i', n]]]
        if j < 0.5:
            c = lt
        elif j < 0.75:
            c = ['and', [lt, self.cond(env, 1)]]
        else:
            f = self.callx(set(env) | {v}, True)
            c = lt if f is None else ['and', [lt, ['cmp', ['!='], [f, ['i', r.randint(-2, 6)]]]]]
        body = [['a=', v, '+', ['i', 1]]] + self.block(set(env) | {v}, depth + 1, 'wh')
        if r.random() < 0.2:
            els = self.block(set(env), depth + 1, loop, 1)
        return [['=', [v], ['i', 0]], ['wh', c, body, els]]


def has(e, tag):
    if isinstance(e, list):
        return (bool(e) and e[0] == tag) or any(has(x, tag) for x in e)
    return False


def vars_(e):
    if isinstance(e, list):
        if len(e) == 2 and e[0] == 'v':
            return {e[1]}
        s = set()
        for x in e:
            s |= vars_(x)
        return s
    return set()


def random_program(rng, size=12, lim=LIM, nobit=False):
    while True:
        P, args, g = Gen(rng, rng.choice([4, size, size]), nobit).program()
        try:
            s = Filter(P, lim).run(args, g)
        except Reject:
            continue
        if s['out']:
            return P, args, g
