"""Shared by C01 and C02: random expressions, statement bodies, stimuli and their
construction with the real library."""
from veriloggen import If, Ands, Ors, Not, Int

INS = [('c0', 1), ('c1', 1), ('c2', 1), ('d0', 4), ('d1', 7), ('d2', 2)]


# ---------------------------------------------------------------- generator
def gen_expr(rng, nreg, nprev, depth=2, cond=False, noprev=False):
    r = rng.random()
    if cond:
        if depth == 0 or r < 0.45:
            return ['in', rng.randint(1, 3)]
        if r < 0.6:
            return ['not', gen_expr(rng, nreg, nprev, depth - 1, True, noprev)]
        if r < 0.75:
            return [rng.choice(['&&', '||']), gen_expr(rng, nreg, nprev, depth - 1, True, noprev),
                    gen_expr(rng, nreg, nprev, depth - 1, True, noprev)]
        if r < 0.85:
            return ['bit', ['in', rng.choice([4, 5])], rng.randint(0, 3)]
        return [rng.choice(['==', '<']), gen_expr(rng, nreg, nprev, 0, False, noprev),
                gen_expr(rng, nreg, nprev, 0, False, noprev)]
    if depth == 0 or r < 0.5:
        r = rng.random()
        if r < 0.2:
            return ['c', rng.randint(0, 15)]
        if r < 0.45 or (nreg == 0 and (nprev == 0 or noprev)):
            return ['in', rng.randint(4, 6)]
        if nprev and not noprev and (r < 0.75 or nreg == 0):
            return ['p', rng.randint(1, nprev)]
        return ['r', rng.randint(1, nreg)]
    return [rng.choice(['+', '&', '|', '^']), gen_expr(rng, nreg, nprev, depth - 1, False, noprev),
            gen_expr(rng, nreg, nprev, depth - 1, False, noprev)]


def gen_body(rng, w, nprev, eager, nested=True):
    body = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        d = rng.randint(1, len(w))
        r = rng.random()
        rhs = gen_expr(rng, len(w), nprev)
        if nested and r < 0.15 and not eager:
            body.append(dict(sel='if', cond=gen_expr(rng, len(w), nprev, 1, True),
                             then=gen_body(rng, w, nprev, 0, False),
                             **{'else': gen_body(rng, w, nprev, 0, False) if rng.random() < 0.6 else []}))
        elif r < 0.25 and w[d - 1] > 2:
            lo = rng.randint(0, w[d - 1] - 1)
            hi = rng.randint(lo, w[d - 1] - 1)
            body.append(dict(sel='slice', dst=d, lo=lo, hi=hi, rhs=rhs))
        elif r < 0.33:
            body.append(dict(sel='ptr', dst=d, idx=['in', rng.choice([4, 6])], rhs=rhs))
        else:
            body.append(dict(sel='all', dst=d, rhs=rhs))
    return body


def gen_prevs(rng, nreg):
    prevs = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
        cond = gen_expr(rng, nreg, 0, 1, True, True) if rng.random() < 0.4 else []
        r = rng.random()
        if r < 0.6:
            src = ['in', rng.randint(1, 6)]
        elif r < 0.8:
            src = ['r', rng.randint(1, nreg)]
        else:
            src = [rng.choice(['&', '|', '^']), ['in', 4], ['in', 4]]
        n = rng.randint(0, 3)
        if prevs and rng.random() < 0.6:        # look-backs on the same variable meet each other
            src = prevs[-1]['src']
            n = rng.choice([n, prevs[-1]['n']])
        pfx = int(rng.random() < 0.3)
        prevs.append(dict(src=src, n=n, init=rng.randint(0, 1) if pfx else 0, cond=cond, pfx=pfx,
                          late=int(rng.random() < 0.5)))
    return prevs


def fix_full(body):
    for a in body:
        if a['sel'] == 'if':
            fix_full(a['then'])
            fix_full(a['else'])
        elif a['sel'] != 'all':
            a['sel'] = 'all'


def stimulus(rng, n):
    rows = [[1] + [rng.getrandbits(w) for _, w in INS] for _ in range(2)]
    pr = 0.04
    for _ in range(n):
        rows.append([int(rng.random() < pr)] + [rng.getrandbits(w) for _, w in INS])
        if rng.random() < 0.3:      # hold phases
            rows[-1][1:4] = rows[-2][1:4]
    return rows


class Builder(object):
    """Turns the abstract expressions and bodies into veriloggen objects."""

    def __init__(self, P, pid, ins, regs, prev_owner, state=None):
        self.P, self.pid, self.ins, self.regs = P, pid, ins, regs
        self.owner = prev_owner
        self.state = state
        self.prevs = [None] * len(P['prevs'])
        for k, p in enumerate(P['prevs']):
            if not p['late']:
                self.prev(k)

    def prev(self, k):
        p = self.P['prevs'][k]
        if self.prevs[k] is None:
            self.prevs[k] = self.owner.Prev(
                self.ev(p['src']), p['n'], initval=p['init'],
                cond=self.ev(p['cond']) if p['cond'] else None,
                prefix='_p%d_%d_' % (self.pid, k) if p['pfx'] else '_q%d_' % self.pid)
        return self.prevs[k]

    def ev(self, e):
        op, ev = e[0], self.ev
        if op == 'c':
            return e[1]
        if op == 'in':
            return self.ins[e[1] - 1]
        if op == 'r':
            return self.regs[e[1] - 1]
        if op == 'p':
            return self.prev(e[1] - 1)
        if op == 'st':
            return self.state == e[1]
        if op == 'bit':
            return ev(e[1])[e[2]]
        if op == 'not':
            return Not(ev(e[1]))
        a, b = ev(e[1]), ev(e[2])
        if isinstance(a, int):
            a = Int(a)
        return {'+': lambda: a + b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                '==': lambda: a == b, '<': lambda: a < b,
                '&&': lambda: Ands(a, b), '||': lambda: Ors(a, b)}[op]()

    def sub(self, a):
        ev, sub = self.ev, self.sub
        if a['sel'] == 'if':
            s = If(ev(a['cond']))(*[sub(x) for x in a['then']])
            if a['else']:
                s = s.Else(*[sub(x) for x in a['else']])
            return s
        r = self.regs[a['dst'] - 1]
        if a['sel'] == 'all':
            return r(ev(a['rhs']))
        if a['sel'] == 'slice':
            return r[a['lo']:a['hi'] + 1](ev(a['rhs']))
        return r[ev(a['idx'])](ev(a['rhs']))

    def body(self, c):
        return [self.sub(a) for a in c['body']]

    def attrs(self, s, c):
        """Attach chain kind and delay attributes of call c to the manager s."""
        if c['kind'] == 'if':
            s = s.If(self.ev(c['cond']))
        elif c['kind'] == 'elif':
            s = s.Elif(self.ev(c['cond']))
        elif c['kind'] == 'else':
            s = s.Else
        if c['delay']:
            s = s.Delay(c['delay'])
        if c['keep']:
            s = s.Keep(c['keep'])
        if c['lazy']:
            s = s.LazyCond()
        if c['eager']:
            s = s.EagerVal()
        return s


def full_dst(calls):
    """Registers that some call assigns as a whole."""
    full = set()

    def dst(body):
        for a in body:
            if a['sel'] == 'if':
                dst(a['then'])
                dst(a['else'])
            elif a['sel'] == 'all':
                full.add(a['dst'])
    for c in calls:
        dst(c['body'])
    return full
