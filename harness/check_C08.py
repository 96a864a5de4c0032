"""C08: RAMs, port by port and cycle by cycle (RamTrace) and as memories shared by
concurrent threads and RTL users (RamHist)."""
import vlib, oplib, random
from vlib import Check, drive, pmap, SimError
from oplib import pads, fmt
from veriloggen import Module
import veriloggen.core.vtypes as vtypes
import veriloggen.thread as vthread
import veriloggen.types.ram as tram
from veriloggen.thread.ram import to_multibank_ram

MASK = lambda w: (1 << w) - 1


class Cycle(object):
    """A RAM design whose ports are driven from the outside."""

    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.kind = r.choice(['def', 'sync', 'async', 'ram', 'ram', 'fixed', 'multi', 'multi', 'packed'])
        self.dw = r.choice([1, 7, 8, 16, 32, 32, 33, 64, 100])
        self.aw = r.choice([1, 2, 3, 4])
        self.np = r.choice([1, 1, 2, 2, 3])
        self.enable = True if self.kind not in ('def', 'sync', 'async') else r.random() < 0.6
        self.async_ = self.kind == 'async' or (self.kind == 'def' and r.random() < 0.4)
        self.banks = {'multi': r.choice([2, 2, 4]), 'packed': r.choice([2, 2, 4])}.get(self.kind, 1)
        self.n = self.banks << self.aw
        self.init, self.iv = ['x'] * self.n, None
        if self.banks == 1 and r.random() < 0.5:
            cnt = r.choice([self.n, self.n, self.n - 1, 1])
            vals = [r.getrandbits(self.dw) for _ in range(cnt)]
            self.init = ['%x' % x for x in vals] + ['0'] * (self.n - cnt)
            self.iv = [self.lit(x) for x in vals]
            if self.kind == 'async' and r.random() < 0.3:
                self.iv, self.init = None, ['x'] * self.n
        self.modes = []

    def lit(self, x):
        c = self.r.randrange(5)
        if self.kind == 'fixed':
            return x
        if c == 1:
            return vtypes.Int(x)
        if c == 2:
            return vtypes.Int(x, width=self.dw, base=10)
        if c == 3:
            return vtypes.Int("%d'h%x" % (self.dw, x))
        return x

    def build(self):
        r, k = self.r, self.kind
        ins, outs = self.ins, self.outs = [], []
        if k == 'def':
            m = tram.mkRAMDefinition('f', self.dw, self.aw, self.np, self.iv, sync=not self.async_, with_enable=self.enable)
            for p in range(self.np):
                ins += [('f_%d_addr' % p, self.aw), ('f_%d_wdata' % p, self.dw), ('f_%d_wenable' % p, 1)]
                if self.enable:
                    ins.append(('f_%d_enable' % p, 1))
                outs.append(('f_%d_rdata' % p, self.dw))
                self.modes.append(('con', 'f_%d_' % p))
            return m.to_verilog(), 'f'
        m = Module('top')
        clk = m.Input('CLK')
        if k in ('sync', 'async'):
            cls = tram.AsyncRAM if k == 'async' else tram.SyncRAM
            o = cls(m, 'ram', clk, self.dw, self.aw, self.np, initvals=self.iv, with_enable=self.enable)
            for p in range(self.np):
                a, d, w = self.inp(m, 'c%d_' % p)
                e = m.Input('c%d_enable' % p) if self.enable else None
                if self.enable:
                    ins.append(('c%d_enable' % p, 1))
                o.connect(p, a, d, w, e)
                self.out(m, 'c%d_rdata' % p, self.dw).assign(o.rdata(p))
                self.modes.append(('con', 'c%d_' % p))
            return m.to_verilog(), 'top'
        rst = m.Input('RST')
        ins.append(('RST', 1))
        ext = ()
        if k in ('ram', 'fixed', 'multi') and r.random() < 0.3:
            ext = r.sample(range(self.np), r.randrange(1, self.np + 1))
            if k == 'multi':
                ext = ()
        kw = dict(external_ports=ext) if ext else {}
        if self.iv is not None:
            kw['initvals'] = self.iv
        if k == 'multi':
            o = vthread.MultibankRAM(m, 'ram', clk, rst, self.dw, self.aw, numports=self.np, numbanks=self.banks)
            parts = o.rams
        elif k == 'packed':
            parts = [vthread.RAM(m, 'ram%d' % b, clk, rst, self.dw, self.aw, numports=self.np) for b in range(self.banks)]
            o = to_multibank_ram(parts)
        elif k == 'fixed':
            if 'initvals' in kw:
                kw['noconvert_initvals'] = True
                if r.random() < 0.5:        # real values: the raw words are the values scaled by 2**point
                    pt = r.choice([1, 4, 8])
                    raws = [r.getrandbits(min(self.dw, 12) - 1) if self.dw > 1 else 0 for _ in kw['initvals']]
                    self.init = ['%x' % x for x in raws] + ['0'] * (self.n - len(raws))
                    kw['initvals'] = [x / 2.0 ** pt for x in raws]
                    kw['noconvert_initvals'] = False
                    kw['point'] = pt
            o = vthread.FixedRAM(m, 'ram', clk, rst, self.dw, self.aw, numports=self.np, **kw)
            parts = [o]
        else:
            o = vthread.RAM(m, 'ram', clk, rst, self.dw, self.aw, numports=self.np, **kw)
            parts = [o]
        aw = self.aw + {1: 0, 2: 1, 4: 2}[self.banks]
        for p in range(self.np):
            if p in ext:
                n = 'ram_%d_' % p
                ins += [(n + 'addr', aw), (n + 'wdata', self.dw), (n + 'wenable', 1), (n + 'enable', 1)]
                outs.append((n + 'rdata', self.dw))
                self.modes.append(('con', n))
                continue
            c = r.random()
            if c < 0.35:
                n = 'c%d_' % p
                a, d, w = self.inp(m, n, aw)
                e = m.Input(n + 'enable')
                ins.append((n + 'enable', 1))
                q = self.out(m, n + 'rdata', self.dw)
                o.connect_rtl(p, a, d, w, q, e)
                self.modes.append(('con', n))
            elif c < 0.45 and self.banks == 1:
                n = 's%d_' % p
                s = tram.RAMSlaveInterface(m, n[:-1], self.dw, aw, with_enable=True)
                o[p].connect(s)
                ins += [(n + 'addr', aw), (n + 'wdata', self.dw), (n + 'wenable', 1), (n + 'enable', 1)]
                outs.append((n + 'rdata', self.dw))
                self.modes.append(('con', n))
            elif c < 0.52:          # a port that reads, or writes, in every cycle
                n = 'a%d_' % p
                a = m.Input(n + 'addr', aw)
                ins.append((n + 'addr', aw))
                if r.random() < 0.5:
                    q, vd = o.read_rtl(a, port=p)
                    self.out(m, n + 'rdata', self.dw).assign(q)
                    self.out(m, n + 'valid', 1).assign(vd)
                    self.modes.append(('allr', n))
                else:
                    d = m.Input(n + 'wdata', self.dw)
                    ins.append((n + 'wdata', self.dw))
                    o.write_rtl(a, d, port=p)
                    self.modes.append(('allw', n))
            else:
                us = []
                for u in range(r.choice([1, 2, 2, 3])):
                    # a user works on the whole RAM or on one bank of it
                    b = r.randrange(self.banks) if self.banks > 1 and r.random() < 0.3 else None
                    targ, w = (o, aw) if b is None else (parts[b], self.aw)
                    n = 'u%d_%d_' % (p, u)
                    a, cnd = m.Input(n + 'addr', w), m.Input(n + 'cond')
                    ins += [(n + 'addr', w), (n + 'cond', 1)]
                    if r.random() < 0.5:
                        q, vd = targ.read_rtl(a, port=p, cond=cnd)
                        self.out(m, n + 'rdata', self.dw).assign(q)
                        self.out(m, n + 'valid', 1).assign(vd)
                        us.append(('r', n, b))
                    else:
                        d = m.Input(n + 'wdata', self.dw)
                        ins.append((n + 'wdata', self.dw))
                        targ.write_rtl(a, d, port=p, cond=cnd)
                        us.append(('w', n, b))
                self.modes.append(('use', us))
        return m.to_verilog(), 'top'

    def inp(self, m, n, aw=None):
        aw = aw or self.aw
        self.ins += [(n + 'addr', aw), (n + 'wdata', self.dw), (n + 'wenable', 1)]
        return m.Input(n + 'addr', aw), m.Input(n + 'wdata', self.dw), m.Input(n + 'wenable')

    def out(self, m, n, w):
        self.outs.append((n, w))
        return m.Output(n, w)

    def stim(self, cycles):
        r, rows = self.r, []
        names = [n for n, _ in self.ins]
        few = [r.randrange(1 << 16) for _ in range(3)]
        for t in range(cycles):
            s = {}
            for n, w in self.ins:
                if n.endswith('addr'):
                    s[n] = (r.choice(few) if r.random() < 0.5 else r.getrandbits(16)) & MASK(w)
                elif n.endswith('wdata'):
                    s[n] = r.getrandbits(w)
                elif n.endswith('wenable'):
                    s[n] = int(r.random() < 0.4)
                elif n.endswith('enable'):
                    s[n] = int(r.random() < 0.75)
                else:
                    s[n] = 0
            for md in self.modes:
                if md[0] == 'use' and t >= 3:
                    c = r.choice(md[1] + [None])
                    if c:
                        s[c[1] + 'cond'] = 1
            if 'RST' in s:
                s['RST'] = int(t < 2)
                if t < 3:
                    s.update((n, 0) for n in s if n.endswith('enable'))
            rows.append([s[n] for n in names])
        return rows

    def trace(self, cycles):
        v, top = self.build()
        rows = self.stim(cycles)
        got = drive(v, top, self.ins, self.outs, rows)
        ev, prev = [], [0] * self.np
        hx = lambda x: '?' if x is None else '%x' % x
        for row, out in zip(rows, got):
            i = dict(zip([n for n, _ in self.ins], row))
            q = dict(zip([n for n, _ in self.outs], out))
            e = []
            for p, md in enumerate(self.modes):
                if md[0] == 'con':
                    n = md[1]
                    e.append([i.get(n + 'enable', 1), i[n + 'wenable'], i[n + 'addr'], hx(i[n + 'wdata']), 1,
                              hx(q[n + 'rdata']), 1, -1])
                elif md[0] == 'allr':
                    n = md[1]
                    e.append([1, 0, i[n + 'addr'], '0', 1, hx(q[n + 'rdata']), int(len(ev) >= 3), q[n + 'valid']])
                elif md[0] == 'allw':
                    n = md[1]
                    e.append([1, 1, i[n + 'addr'], hx(i[n + 'wdata']), 1, '0', 0, -1])
                else:
                    x = [0, 0, 0, '0', 0, '0', 0, 0]
                    for u, (k, n, b) in enumerate(md[1]):
                        if i[n + 'cond']:
                            a = i[n + 'addr'] if b is None else i[n + 'addr'] * self.banks + b
                            x[:5] = [1, int(k == 'w'), a, hx(i[n + 'wdata']) if k == 'w' else '0', u + 1]
                        if k == 'r' and q[n + 'valid'] == 1:
                            x[5:8] = [hx(q[n + 'rdata']), 1, u + 1 if x[7] == 0 else 99]
                        elif k == 'r' and q[n + 'valid'] is None:
                            x[7] = 98
                    e.append(x)
            ev.append(e)
        return dict(n=self.n, init=self.init, async_=0, warm=4, kind=self.kind, **{'async': int(self.async_)}, ev=ev)


def cyc_run(a):
    seed, cycles = a
    c = Cycle(seed)
    return c.trace(cycles)


class Prog(object):
    """threads (and RTL users) sharing one RAM"""

    def __init__(self, k, rng):
        self.k, self.r = k, rng
        r = rng
        self.groups = []
        self.kind = r.choice(['ram', 'ram', 'fixed', 'multi', 'multi', 'packed'])
        self.banks = {'multi': r.choice([2, 4]), 'packed': r.choice([2, 4])}.get(self.kind, 1)
        self.aw = r.choice([1, 2, 3])
        self.n = self.banks << self.aw
        self.np = r.choice([1, 2, 2, 3])
        self.share = r.random() < 0.25          # everybody on port 0 under the lock
        self.init = None
        if self.kind in ('ram', 'fixed') and r.random() < 0.5:
            self.init = [r.randrange(-999, 999) for _ in range(r.choice([self.n, 1, self.n // 2]))]
        self.rtl = r.choice([None, None, 'r', 'w']) if not self.share else None
        self.rbits = r.choice([2, 3])
        self.bodies = [self.script(p) for p in range(self.np)]
        if self.rtl:
            self.groups.append([('read', 1)] if self.rtl == 'r' else [('write', 2)])

    def group(self, p, ops):
        g, desc, pre, body, res, r = len(self.groups), [], [], [], [], self.r
        port = '' if p == 0 or self.share else ', %d' % p if r.random() < 0.5 else ', port=%d' % p
        kraw = ', raw=True' if self.kind == 'fixed' else ''
        for op in ops:
            o, args = op[0], list(op[1:])
            desc.append((o, len(args)))
            pre += args
            if o == 'read':
                body.append('r%d = ram.read(%s%s%s)' % (len(res), args[0], port, kraw))
                res.append('r%d' % len(res))
            elif o == 'write':
                body.append('ram.write(%s, %s%s%s)' % (args[0], args[1], port, kraw))
            elif o == 'readb':
                body.append('r%d = ram.read_bank(%s, %s%s)' % (len(res), args[0], args[1], port))
                res.append('r%d' % len(res))
            else:
                body.append('ram.write_bank(%s, %s, %s%s)' % (args[0], args[1], args[2], port))
        if self.share:
            body = ['ram.lock()'] + body + ['ram.unlock()']
        self.groups.append(desc)
        return [fmt(self.k, 'b', p, g, [str(x) for x in pre])] + body + [fmt(self.k, 'e', p, g, res)]

    def op(self, var):
        r = self.r
        a = '(%s + %d) %% %d' % (var, r.randrange(9), self.n) if var and r.random() < 0.6 else str(r.randrange(self.n))
        d = '(%s * 7 - %d)' % (var, r.randrange(99)) if var and r.random() < 0.6 else str(r.randrange(-2 ** 31, 2 ** 31))
        if self.banks > 1 and r.random() < 0.4:
            b = '%s %% %d' % (var, self.banks) if var and r.random() < 0.5 else str(r.randrange(self.banks))
            a = str(r.randrange(1 << self.aw))
            return ('readb', b, a) if r.random() < 0.5 else ('writeb', b, a, d)
        return ('read', a) if r.random() < 0.55 else ('write', a, d)

    def script(self, p):
        r, out = self.r, []
        for _ in range(r.choice([2, 3, 4])):
            out += pads(r, 5)
            if r.random() < 0.4:
                out += ['for i in range(%d):' % r.choice([2, 3, 4])]
                out += ['  ' + x for x in pads(r, 3) + self.group(p, [self.op('i') for _ in range(r.choice([1, 2, 2]))])]
            else:
                out += self.group(p, [self.op(None) for _ in range(r.choice([1, 1, 2, 3]))])
        return out

    def meta(self):
        ini = [-88888888] * self.n
        if self.init is not None:
            ini = (self.init + [0] * self.n)[:self.n]
        return dict(np=self.np + (self.rtl is not None), K=1000 if self.share else 30 + 12 * self.np, init=ini, any=-88888888, banks=self.banks)

    def text(self):
        k, port = self.k, self.np
        L = [x % k if '%d' in x else x for x in oplib.HEAD]
        npt = 1 if self.share else self.np + 1
        ini = '' if self.init is None else ', initvals=%r' % ([x & MASK(32) for x in self.init],)
        if self.kind == 'ram':
            L.append("  ram = vthread.RAM(m, 'ram', clk, rst, 32, %d, numports=%d%s)" % (self.aw, npt, ini))
        elif self.kind == 'fixed':
            L.append("  ram = vthread.FixedRAM(m, 'ram', clk, rst, 32, %d, numports=%d, point=5%s)" % (
                self.aw, npt, ini and ini + ', noconvert_initvals=True'))
        elif self.kind == 'multi':
            L.append("  ram = vthread.MultibankRAM(m, 'ram', clk, rst, 32, %d, numports=%d, numbanks=%d)" % (self.aw, npt, self.banks))
        else:
            L.append("  ram = vthread.ram.to_multibank_ram([vthread.RAM(m, 'r%%d' %% i, clk, rst, 32, %d, numports=%d) for i in range(%d)])" % (
                self.aw, npt, self.banks))
        for p, b in enumerate(self.bodies):
            L += ['  def main%d():' % p] + ['    ' + x for x in b]
        for p in range(self.np):
            L += ["  vthread.Thread(m, 'p%d', clk, rst, main%d).start()" % (p, p)]
        if self.rtl:
            g = len(self.groups) - 1
            M = (1 << self.rbits) - 1
            L += ["  go = m.Wire('rtl_go'); go.assign(Ands(cyc > 12, (cyc & %d) == %d))" % (M, M // 2),
                  "  ra = m.Wire('rtl_a', %d); ra.assign((cyc >> %d) %% %d)" % (max(1, (self.n - 1).bit_length()), self.rbits, self.n)]
            if self.rtl == 'r':
                L += ["  rd, rv = ram.read_rtl(ra, port=%d, cond=go)" % port,
                      "  seq.If(go)(Systask('display', '#%d b %d %d %%d %%d', cyc, ra))" % (k, self.np, g),
                      "  seq.If(rv)(Systask('display', '#%d e %d %d %%d %%d', cyc, Signed(rd)))" % (k, self.np, g)]
            else:
                L += ["  ram.write_rtl(ra, cyc * 3, port=%d, cond=go)" % port,
                      "  god = m.Reg('god', initval=0); seq(god(go))",
                      "  seq.If(go)(Systask('display', '#%d b %d %d %%d %%d %%d', cyc, ra, cyc * 3))" % (k, self.np, g),
                      "  seq.If(god)(Systask('display', '#%d e %d %d %%d', cyc))" % (k, self.np, g)]
        return '\n'.join(L + ['  return m']) + '\n'


def main():
    chk = Check('C08')
    chk.assumptions = ['ports of one RAM are not driven by two users in the same cycle',
                       'words that were neither initialised nor written are undefined']
    vlib.model_check(chk, 'RamMC', 'RamMC.cfg')
    vlib.model_check(chk, 'RamMC', 'RamMC_4.cfg')
    if not chk.quick():
        vlib.model_check(chk, 'RamMC', 'RamMC_full.cfg')
    rng = chk.rng
    jobs = [(rng.randrange(2 ** 40), chk.n(120, 400)) for _ in range(chk.n(200, 2000))]
    traces, meta = [], []
    for a, r in zip(jobs, pmap(cyc_run, jobs, chunksize=4)):
        if r[0] != 'ok':
            c = Cycle(a[0])
            chk.violation('cycle:%s:%s' % (r[0], c.kind), r[1], dict(seed=a[0], err=r))
        else:
            traces.append(r[1])
            meta.append(a)
    for i, ok, line, cl, det in vlib.validate(chk, 'RamTrace', 'RamTrace.cfg', traces, jobs=8):
        if not ok:
            t = traces[i]
            chk.violation('cycle:%s:%s' % (t['kind'], cl), 'cycle %d: %s' % (line, det),
                          dict(seed=meta[i][0], init=t['init'], events=t['ev'][max(0, line - 10):line]))
    chk.extra['port_cycles'] = sum(len(t['ev']) for t in traces)
    oplib.check(chk, Prog, chk.n(200, 3000), 'RamHist', 'hist', cyc=1500)
    return chk.finish()


vlib.main(main)
