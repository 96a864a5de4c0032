"""Concurrent thread programs on one object: groups of operations bracketed by prints.

A program class has attributes k, groups, text() and meta() (extra trace fields); print
lines are  '#k b proc group cycle values..'  and  '#k e proc group cycle results..'."""
import random
import vlib
from vlib import simulate, load_src, pmap, SimError

TB = """module tb; reg CLK, RST;
 initial begin CLK = 0; forever #5 CLK = !CLK; end
 initial begin RST = 0; #23 RST = 1; #40 RST = 0; end
 initial begin #%d $finish; end
%s
endmodule
"""
HEAD = ['from veriloggen import *', 'import veriloggen.thread as vthread', 'import veriloggen.thread.ram', 'def mk():',
        "  m = Module('p%d'); clk = m.Input('CLK'); rst = m.Input('RST')",
        "  cyc = m.Reg('cyc', 32, initval=0)", "  seq = Seq(m, 'cycseq', clk, rst)", '  seq(cyc.inc())']


def num(x):
    return int(x) if x.lstrip('-').isdigit() else -99999999


def pads(r, long=8):
    return r.choice([[], [], ['z = 0'] * r.randrange(4), ['for j in range(%d):' % r.randrange(1, long), '  pass']])


def fmt(k, kind, p, g, xs):
    return "print('#%d %s %d %d %%d%s' %% (%s,))" % (k, kind, p, g, ' %d' * len(xs), ', '.join(['cyc'] + xs))


def run_bundle(a):
    cls, jobs, cyc = a
    import veriloggen
    res, vs, progs = {}, [], {}
    for k, seed in jobs:
        p = progs[k] = cls(k, random.Random(seed))
        try:
            veriloggen.reset()
            vs.append((k, load_src(p.text()).mk().to_verilog()))
        except Exception as e:
            res[k] = ('exc', '%s: %s' % (type(e).__name__, e))

    def sim(items):
        inst = '\n'.join(' p%d u%d(.CLK(CLK), .RST(RST));' % (k, k) for k, _ in items)
        return simulate([v for _, v in items] + [TB % (cyc * 10, inst)])
    lines = []
    if vs:
        try:
            lines = sim(vs)
        except SimError:
            for it in vs:
                try:
                    lines += sim([it])
                except SimError as e:
                    res[it[0]] = ('sim', str(e))
    evs = {k: [] for k, _ in jobs}
    for s in lines:
        if not s.startswith('#'):
            continue
        f = s[1:].split()
        k, kind, x = int(f[0]), f[1], int(f[2])
        n = [num(y) for y in f[3:]]
        if kind == 'b':
            ops, q = [], 2
            for op, na in progs[k].groups[n[0]]:
                ops.append([op, n[q:q + na]])
                q += na
            evs[k].append([n[1], 'b', x + 1, ops, []])
        else:
            evs[k].append([n[1], kind, x + 1, [], n[2:]])
    order = {'b': 0, 'e': 2}
    for k, seed in jobs:
        if k in res:
            continue
        ev = sorted(evs[k], key=lambda e: (e[0], order.get(e[1], 1)))
        ev.append([cyc - 10, 'Z', 0, [], []])
        res[k] = ('ok', dict(progs[k].meta(), ev=ev))
    return res


def check(chk, cls, n, module, name, cyc=2500, bundle=10):
    rng = chk.rng
    jobs = [(k, rng.randrange(2 ** 40)) for k in range(n)]
    bs = [(cls, jobs[i:i + bundle], cyc) for i in range(0, len(jobs), bundle)]
    res = {}
    for b, r in zip(bs, pmap(run_bundle, bs, chunksize=1)):
        if r[0] != 'ok':
            raise vlib.MachineryError(str(r))
        res.update(r[1])
    traces, meta = [], []
    for k, seed in jobs:
        r = res[k]
        if r[0] != 'ok':
            chk.violation('%s:%s' % (name, r[0]), r[1], dict(source=cls(k, random.Random(seed)).text(), err=r[1]))
        else:
            traces.append(r[1])
            meta.append((k, seed))
    bad = [x for x in vlib.validate(chk, module, module + '.cfg', traces, jobs=8) if not x[1]]
    lax = {}
    if bad and 'lax' in traces[0]:      # is it the known deviation?
        for (i, *_), x in zip(bad, vlib.validate(chk, module, module + '.cfg', [dict(traces[x[0]], lax=1) for x in bad],
                                                 jobs=8, count=False)):
            lax[i] = x[1]
    for i, ok, line, cl, det in bad:
        if lax.get(i):
            chk.violation('%s:%s' % (name, cls.LAX), 'event %d: %s' % (line, det), dict(trace=traces[i]))
        else:
            k, seed = meta[i]
            chk.violation('%s:history:%s' % (name, cl), 'event %d: %s' % (line, det),
                          dict(source=cls(k, random.Random(seed)).text(), trace=traces[i]))
    chk.extra['operations'] = chk.extra.get('operations', 0) + sum(len(e[3]) for t in traces for e in t['ev'])
    if traces:
        chk.sample(dict(events=traces[0]['ev'][:20]))
