"""C07: FIFOs.  Port-level conformance to Fifo.FStep on TLC-enumerated and random
schedules; linearizability (FifoHist) of thread-level histories."""
import vlib
from vlib import Check, simulate, drive, load_src, pmap, SimError
import veriloggen.core.module as module
from veriloggen import Module
import veriloggen.thread as vthread
import veriloggen.types.fifo as tfifo

DW = 16


def build_def(aw, sync):
    m = tfifo.mkFifoDefinition('f', DW, aw, sync=sync)
    return m.to_verilog(), 'f', 'f_'


def build_vthread(aw, sync, kind):
    m = Module('top')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    enq = m.Input('f_enq'); wd = m.Input('f_wdata', DW); deq = m.Input('f_deq')
    full = m.Output('f_full'); af = m.Output('f_almost_full')
    em = m.Output('f_empty'); ae = m.Output('f_almost_empty')
    rd = m.Output('f_rdata', DW)
    cnt = m.Output('cnt', aw + 1); spc = m.Output('spc', aw + 2)
    hs = [m.Output('hs%d' % k) for k in (1, 2)]
    if kind == 'fixed':
        f = vthread.FixedFIFO(m, 'ff', clk, rst, DW, aw, point=4, sync=sync)
    else:
        f = vthread.FIFO(m, 'ff', clk, rst, DW, aw, sync=sync)
    f.connect_enq_rtl(enq, wd, full, af)
    f.connect_deq_rtl(deq, rd, em, ae)
    cnt.assign(f.count)
    spc.assign(f.space)
    for k in (1, 2):
        hs[k - 1].assign(f.has_space(k))
    return m.to_verilog(), 'top', 'f_'


def build_ext(aw, sync, fixed, xw, xr):
    """External ports on the FIFO itself (external_write / external_read)."""
    m = Module('top')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    kw = dict(sync=sync)
    if xw:
        kw['external_write'] = True
    if xr:
        kw['external_read'] = True
    f = vthread.FixedFIFO(m, 'f', clk, rst, DW, aw, point=4, **kw) if fixed else vthread.FIFO(m, 'f', clk, rst, DW, aw, **kw)
    if not xw:
        f.connect_enq_rtl(m.Input('x_enq'), m.Input('x_wdata', DW), m.Output('x_full'), m.Output('x_almost_full'))
    if not xr:
        f.connect_deq_rtl(m.Input('x_deq'), m.Output('x_rdata', DW), m.Output('x_empty'), m.Output('x_almost_empty'))
    return m.to_verilog(), 'top', ('f_' if xw else 'x_'), ('f_' if xr else 'x_')


def port_trace(a):
    kind, aw, sync, sched = a
    ext, q = 0, None
    if kind == 'def':
        v, top, p = build_def(aw, sync)
    elif kind.startswith('ext'):
        v, top, p, q = build_ext(aw, sync, 'f' in kind, 'w' in kind, 'r' in kind)
    else:
        v, top, p = build_vthread(aw, sync, kind)
        ext = 1
    q = q or p
    ins = [('RST', 1), (p + 'enq', 1), (p + 'wdata', DW), (q + 'deq', 1)]
    outs = [(p + 'full', 1), (p + 'almost_full', 1), (q + 'empty', 1), (q + 'almost_empty', 1),
            (q + 'rdata', DW)]
    if ext:
        outs += [('cnt', aw + 1), ('spc', aw + 2), ('hs1', 1), ('hs2', 1)]
    rows = drive(v, top, ins, outs, sched)
    ev = []
    for s, r in zip(sched, rows):
        r = [-1 if x is None else x for x in r]
        if not ext:
            r += [0, 0, 0, 0]
        ev.append(list(s) + r)
    return dict(aw=aw, sync=int(sync), count=ext, ev=ev)


def thread_hist(a):
    kind, aw, sync, progs, lock = a
    src = ['from veriloggen import *', 'import veriloggen.thread as vthread', 'def mk():',
           "  m = Module('top'); clk = m.Input('CLK'); rst = m.Input('RST')",
           "  cyc = m.Reg('cyc', 32, initval=0); seq = Seq(m, 'seq', clk, rst); seq(cyc.inc())"]
    if kind == 'fixed':
        src.append("  f = vthread.FixedFIFO(m, 'f', clk, rst, 32, %d, point=4, sync=%s)" % (aw, sync))
        raw = ', raw=True'
        raw1 = 'raw=True'
    else:
        src.append("  f = vthread.FIFO(m, 'f', clk, rst, 32, %d, sync=%s)" % (aw, sync))
        raw = raw1 = ''
    ids = {'enq': 0, 'deq': 1, 'try_enq': 2, 'try_deq': 3, 'is_empty': 4, 'is_full': 5,
           'is_almost_empty': 6, 'is_almost_full': 7}
    for th, prog in enumerate(progs):
        src.append("  def t%d():" % th)
        src.append("    w = 0")
        for op, val, dly in prog:
            if dly:
                src.append("    for i in range(%d): w += 1" % dly)
            if lock:
                src.append("    f.lock()")
            src.append("    print('H %%d %d 0 %d %d 0' %% cyc)" % (th, ids[op], val))
            if op in ('enq',):
                src.append("    f.enq(%d%s)" % (val, raw))
                src.append("    print('H %%d %d 1 %d 0 1' %% cyc)" % (th, ids[op]))
            elif op == 'deq':
                src.append("    r = f.deq(%s)" % raw1)
                src.append("    print('H %%d %d 1 %d %%d 1' %% (cyc, r))" % (th, ids[op]))
            elif op == 'try_enq':
                src.append("    a = f.try_enq(%d%s)" % (val, raw))
                src.append("    print('H %%d %d 1 %d 0 %%d' %% (cyc, a))" % (th, ids[op]))
            elif op == 'try_deq':
                src.append("    r, a = f.try_deq(%s)" % raw1)
                src.append("    print('H %%d %d 1 %d %%d %%d' %% (cyc, r, a))" % (th, ids[op]))
            else:
                src.append("    a = f.%s()" % op)
                src.append("    print('H %%d %d 1 %d 0 %%d' %% (cyc, a))" % (th, ids[op]))
            if lock:
                src.append("    f.unlock()")
        src.append("    print('END %d')" % th)
    for th in range(len(progs)):
        src.append("  vthread.Thread(m, 'th%d', clk, rst, t%d).start()" % (th, th))
    src.append("  return m")
    v = load_src('\n'.join(src) + '\n').mk().to_verilog()
    lines = simulate([v, vlib.tb_clocked('top', 1500)])
    names = {b: a_ for a_, b in ids.items()}
    ev, ends = [], 0
    for s in lines:
        if s.startswith('H '):
            y = s.split()[1:]
            if y[5] == '0' and not y[4].isdigit():
                y[4] = '0'          # data of a failed try_deq is not defined
            try:
                x = [int(z) for z in y]
            except ValueError:
                raise SimError('undefined value in ' + s)
            ev.append((x[0], x[2], x[1], names[x[3]], x[4], x[5]))
        elif s.startswith('END'):
            ends += 1
    ev.sort(key=lambda e: e[:2])
    return dict(cap=2 ** aw - 1, nth=len(progs), done=int(ends == len(progs)),
                ev=[[e[2], e[1], e[3], e[4], e[5]] for e in ev])


def main():
    chk = Check('C07')
    chk.assumptions = ['iverilog executes the emitted Verilog faithfully',
                       'thread FIFO operations by one producer and one consumer, or under the lock']
    vlib.model_check(chk, 'FifoMC', 'FifoMC.cfg')
    gen = vlib.tlc_print('FifoGen', 'FifoGen.cfg', 'GEN', chk=chk)
    rng = chk.rng
    jobs = []
    kinds = ['def', 'vt', 'ext:wr', 'ext:w', 'ext:r', 'extf:w', 'extf:r', 'extf:wr', 'fixed']
    for aw in (1, 2, 3):
        for sync in (True, False):
            for kind in kinds if aw == 2 or not chk.quick() else kinds[:3] + kinds[-1:]:
                sel = gen if (aw == 2 and kind == 'vt') or not chk.quick() else rng.sample(gen, 150)
                sched = [(1, 0, 0, 0), (1, 0, 0, 0)]
                w = 0
                for h in sel:
                    # start from empty and from a random prefix of fill
                    for _ in range(rng.choice([0, 0, 1, 2 ** aw - 2])):
                        w += 1
                        sched.append((0, 1, w & 0xffff, 0))
                    for e, d in h:
                        w += 1
                        sched.append((0, e, (w * 7 + 1) & 0xffff, d))
                    sched.append((1, rng.randint(0, 1), w & 0xffff, rng.randint(0, 1)))
                for _ in range(chk.n(300, 3000)):    # long random run, biased phases
                    b = rng.choice([2, 5, 8])
                    for _ in range(6):
                        w += 1
                        sched.append((0, int(rng.randint(0, 9) < b), rng.getrandbits(16),
                                      int(rng.randint(0, 9) >= b)))
                jobs.append((kind, aw, sync, sched))
    for aw in ((4, 6) if chk.quick() else (4, 5, 6, 8)):
        sched = [(1, 0, 0, 0)] * 2
        for ph in range(6):
            for _ in range(2 ** aw + 3):
                sched.append((0, int(rng.random() < (0.95 if ph % 2 == 0 else 0.1)),
                              rng.getrandbits(16),
                              int(rng.random() < (0.1 if ph % 2 == 0 else 0.95))))
        for sync in (True, False):
            jobs.append(('vt', aw, sync, sched))
    traces, meta = [], []
    for a, r in zip(jobs, pmap(port_trace, jobs, chunksize=1)):
        if r[0] != 'ok':
            chk.violation('build:%s:aw%d:sync%d' % a[:3], r[1], list(r))
            continue
        t = r[1]
        # the first two events are the reset that initialises the design
        t['warm'] = 2
        traces.append(t)
        meta.append(a[:3])
    for i, ok, line, cl, det in vlib.validate(chk, 'FifoTrace', 'FifoTrace.cfg', traces, jobs=8):
        if not ok:
            k = 'port:%s:aw%d:sync%d:%s' % (meta[i] + (cl,))
            chk.violation(k, 'cycle %d: %s wrong (%s)' % (line, cl, det),
                          dict(meta=meta[i], clause=cl, events=traces[i]['ev'][max(0, line - 12):line]))
    chk.extra['port_events'] = sum(len(t['ev']) for t in traces)
    # thread histories
    hj = []
    for _ in range(chk.n(60, 600)):
        aw = rng.choice([2, 2, 3])
        n = rng.randint(4, 9)
        kind = rng.choice(['fifo', 'fifo', 'fixed'])
        lock = rng.random() < 0.3
        val = [0]

        def dly():
            return rng.choice([0, 0, 0, 1, 2, 5])
        if lock:
            progs = []
            for th in range(3):
                p = []
                for k in range(rng.randint(2, 4)):
                    val[0] += 1
                    p.append((rng.choice(['try_enq', 'try_enq', 'try_deq', 'is_empty', 'is_full']),
                              val[0], dly()))
                progs.append(p)
        else:
            prod, cons = [], []
            nblock = rng.randint(1, n)
            for k in range(nblock):
                val[0] += 1
                prod.append(('enq', val[0], dly()))
                cons.append(('deq', 0, dly()))
            for k in range(rng.randint(0, 3)):      # status reads anywhere
                prod.insert(rng.randint(0, len(prod)),
                            (rng.choice(['is_full', 'is_almost_full']), 0, dly()))
                cons.insert(rng.randint(0, len(cons)),
                            (rng.choice(['is_empty', 'is_almost_empty']), 0, dly()))
            # try operations only once the blocking ones cannot be starved by them
            for k in range(rng.randint(0, 4)):
                val[0] += 1
                prod.append(('try_enq', val[0], dly()))
            for k in range(rng.randint(0, 4)):
                cons.append(('try_deq', 0, dly()))
            progs = [prod, cons]
            # fill first: delay the consumer
            if rng.random() < 0.5:
                cons[0] = (cons[0][0], cons[0][1], rng.choice([10, 30]))
            elif rng.random() < 0.5:
                prod[0] = (prod[0][0], prod[0][1], rng.choice([10, 30]))
        hj.append((kind, aw, rng.random() < 0.5, progs, lock))
    traces, meta = [], []
    for a, r in zip(hj, pmap(thread_hist, hj)):
        if r[0] != 'ok':
            chk.violation('hist-build:%s' % a[0], r[1], [a, list(r)])
            continue
        traces.append(r[1])
        meta.append(a)
    for i, ok, line, cl, det in vlib.validate(chk, 'FifoHist', 'FifoHist.cfg', traces, jobs=4):
        if not ok:
            a = meta[i]
            chk.violation('hist:%s:sync%d:lock%d:%s' % (a[0], a[2], a[4], cl),
                          'event %d: %s (%s)' % (line, cl, det), dict(job=a, trace=traces[i]))
    if traces:
        chk.sample(dict(history=traces[0]))
    return chk.finish()


vlib.main(main)
