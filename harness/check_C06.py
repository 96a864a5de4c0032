"""C06: barriers among concurrent threads, against Barrier (BarrierTrace)."""
import vlib, oplib
from vlib import Check
from oplib import pads, fmt


class Prog(object):
    def __init__(self, k, rng):
        self.k, self.r = k, rng
        r = rng
        self.groups = []
        self.n = r.choice([1, 2, 2, 3, 3, 4, 5])
        # the usual case is as many threads as parties; fewer never leave, more form mixed rounds
        self.np = max(1, self.n + r.choice([0, 0, 0, 0, 0, -1, 1, 2]))
        self.rounds = r.choice([1, 2, 3, 5])
        self.bodies = [self.script(p) for p in range(self.np)]
        self.sub = [r.random() < 0.1 for _ in range(self.np)]

    def wait(self, p):
        self.groups.append([('wait', 0)])
        g = len(self.groups) - 1
        return [fmt(self.k, 'b', p, g, []), 'bar.wait()', fmt(self.k, 'e', p, g, [])]

    def script(self, p):
        r, out = self.r, ['t = 0']
        gap = lambda: pads(r, 5) + (['while cyc < %d:' % r.randrange(20, 500), '  pass'] if r.random() < 0.2 else []) + (
            ['for j in range(%d):' % r.randrange(1, 40), '  pass'] if r.random() < 0.15 else [])
        if r.random() < 0.5:
            w = gap() + self.wait(p) + gap()
            return out + ['for n in range(%d):' % self.rounds] + ['  ' + x for x in w]
        for _ in range(self.rounds if r.random() < 0.9 else self.rounds + 1):
            out += gap() + self.wait(p)
        return out

    def meta(self):
        return dict(np=self.np, n=self.n, K=25 + 14 * self.np)

    def text(self):
        L = [x % self.k if '%d' in x else x for x in oplib.HEAD]
        L += ["  bar = vthread.Barrier(m, 'bar', clk, rst, %d)" % self.n]
        for p, b in enumerate(self.bodies):
            L += ['  def main%d():' % p] + ['    ' + x for x in b]
        for p in range(self.np):
            L += ["  vthread.Thread(m, 'p%d', clk, rst, main%d%s).start()" % (p, p, ', fsm_as_module=True' if self.sub[p] else '')]
        return '\n'.join(L + ['  return m']) + '\n'


def main():
    chk = Check('C06')
    for c in (1, 2, 3):
        vlib.model_check(chk, 'BarrierMC', 'BarrierMC_%d.cfg' % c)
    oplib.check(chk, Prog, chk.n(400, 6000), 'BarrierTrace', 'barrier', cyc=3000)
    return chk.finish()


vlib.main(main)
