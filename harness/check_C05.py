"""C05: mutexes and shared values under concurrent threads, against Mutex (MutexTrace)."""
import vlib, oplib
from vlib import Check
from oplib import pads, fmt


class Prog(object):
    LAX = 'release-without-ownership'

    def __init__(self, k, rng):
        self.k, self.r = k, rng
        r = rng
        self.groups = []
        self.np = r.choice([2, 2, 3, 4])
        self.kind = r.choice(['mutex', 'lock', 'shared', 'shared'])
        self.obj = 'sh' if self.kind == 'shared' else 'mx'
        self.width = r.choice([32, 32, 3, 4])
        self.val = r.choice([0, 0, 7, -3])
        # the shared value: a register, or one word of a memory
        self.word = r.choice([None, None, 0, 2, 3])
        self.ref = 'cnt' if self.word is None else 'cnt[%d]' % self.word
        self.bodies = [self.script(p) for p in range(self.np)]
        self.sub = [r.random() < 0.12 for _ in range(self.np)]

    def group(self, p, ops):
        g, desc, pre, body, res = len(self.groups), [], [], [], []
        r = self.r
        for op in ops:
            o, args = op[0], [str(x) for x in op[1:]]
            if o == 'lock':
                body.append('%s.%s' % (self.obj, r.choice(['lock()', 'lock()'] + ([] if self.obj == 'sh' else
                                                                                   ['acquire()', 'acquire(True)', 'acquire(blocking=True)']))))
            elif o == 'try':
                body.append('t = %s.%s' % (self.obj, r.choice(['try_lock()', 'try_lock()'] + (
                    [] if self.obj == 'sh' else ['acquire(False)', 'acquire(blocking=False)']))))
                body.append('r%d = t' % len(res))
                res.append('r%d' % len(res))
            elif o == 'unlock':
                body.append('%s.%s()' % (self.obj, r.choice(['unlock'] + ([] if self.obj == 'sh' else ['release']))))
            elif o == 'read':
                last = 'r%d' % len(res)
                body.append('%s = %s' % (last, r.choice(['sh.read()', 'sh.read()', 'cnt']) if self.word is None else r.choice([self.ref, 'sh.read()[%d]' % self.word]) ))
                res.append(last)
            elif o == 'write':
                body.append('sh.write(%s + %s%s)' % (last, args[0], '' if self.word is None else ', %d' % self.word))
            elif o == 'part':
                lo, n, v = op[1:]
                part = ('%d' if n == 1 else '(%d, %d)') % ((lo,) if n == 1 else (lo + n - 1, lo))
                body.append('sh.write(%d, %s%s)' % (v, '' if self.word is None else '%d, ' % self.word, part))
            desc.append((o, len(args)))
            pre += args
        self.groups.append(desc)
        return [fmt(self.k, 'b', p, g, pre)] + body + [fmt(self.k, 'e', p, g, res)]

    def script(self, p):
        r = self.r
        out = ['t = 0']
        loop = r.random() < 0.4
        for _ in range(r.choice([2, 3]) if loop else r.choice([2, 4, 6])):
            out += pads(r, 5)
            c = r.random()
            crit = [('read',), ('write', r.randrange(1, 9))]
            if r.random() < .2:
                n = r.choice([1, 1, 2, 3]) if self.word is None else 1     # slices of memory words are not accepted
                crit.append(('part', r.choice([0, 1, 3, 8]), n, r.randrange(1 << n)))
            if c < 0.35:
                ops = [('lock',)] + r.choice([[], crit, crit + [('lock',)], crit * 2, [('try',)] + crit])
                if r.random() < 0.6:
                    out += self.group(p, ops) + pads(r, 4) + self.group(p, [('unlock',)])
                else:
                    out += self.group(p, ops + [('unlock',)])
            elif c < 0.7:
                out += self.group(p, [('try',)])
                inner = []
                if r.random() < 0.6:
                    inner += self.group(p, crit)
                inner += pads(r, 4) + self.group(p, [('unlock',)])
                out += ['if t:' if r.random() < 0.5 else 'if t == 1:'] + ['  ' + x for x in inner]
            elif c < 0.82:
                out += self.group(p, [('unlock',)])       # not held by this thread
            elif c < 0.92:
                out += self.group(p, r.choice([[('read',)], [crit[-1], ('read',)] if len(crit) > 2 else [('read',)]]))
            else:
                out += self.group(p, [('lock',), ('unlock',), ('unlock',)])
        if p == 0:      # a value that is never written is not reset either
            out += self.group(p, [('lock',), ('read',), ('write', 1), ('unlock',)])
        if loop:
            out = out[:1] + ['for n in range(%d):' % r.choice([2, 3])] + ['  ' + x for x in out[1:]]
        return out

    def meta(self):
        return dict(np=self.np, K=12 + 8 * self.np, val=self.val, lax=0)

    def text(self):
        L = [x % self.k if '%d' in x else x for x in oplib.HEAD]
        if self.word is None:
            L += ["  cnt = m.Reg('cnt', 32, initval=%d, signed=True)" % self.val]
        else:
            L += ["  cnt = m.Reg('cnt', 32, 4, signed=True)",
                  '  m.Initial(*[cnt[i](%d if i == %d else i + 100) for i in range(4)])' % (self.val, self.word)]
        if self.obj == 'sh':
            L += ['  sh = vthread.Shared(cnt)']
        else:
            L += ["  mx = vthread.%s(m, 'mx', clk, rst%s)" % ('Mutex' if self.kind == 'mutex' else 'Lock',
                                                            '' if self.width == 32 else ', width=%d' % self.width),
                  '  sh = vthread.Shared(cnt)']
        for p, b in enumerate(self.bodies):
            L += ['  def main%d():' % p] + ['    ' + x for x in b]
        for p in range(self.np):
            L += ["  vthread.Thread(m, 'p%d', clk, rst, main%d%s).start()" % (p, p, ', fsm_as_module=True' if self.sub[p] else '')]
        return '\n'.join(L + ['  return m']) + '\n'


class Known(Prog):
    """a release without ownership next to a try_lock, in every alignment"""

    def __init__(self, k, rng):
        self.k, self.r = k, rng
        self.word, self.ref = None, 'cnt'
        self.groups, self.np, self.kind, self.obj, self.width, self.val = [], 2, 'mutex', 'mx', 32, 0
        self.sub = [False, False]
        a, b = (0, 1) if k % 2 else (1, 0)
        body = {}
        body[a] = (self.group(a, [('lock',), ('read',), ('write', 1), ('unlock',)]) + ['z = 0'] * 20 +
                   self.group(a, [('unlock',)]))
        body[b] = ['z = 0'] * (20 + k // 2) + self.group(b, [('try',)])
        self.bodies = [body[0], body[1]]


def main():
    chk = Check('C05')
    chk.assumptions = ['lock requests that never stop are not required to be served fairly']
    vlib.model_check(chk, 'MutexMC', 'MutexMC.cfg' if chk.quick() else 'MutexMC_full.cfg', timeout=900)
    vlib.model_check(chk, 'MutexMC', 'MutexMC_stray.cfg')
    oplib.check(chk, Prog, chk.n(400, 6000), 'MutexTrace', 'mutex')
    oplib.check(chk, Known, 40, 'MutexTrace', 'mutex')
    return chk.finish()


vlib.main(main)
