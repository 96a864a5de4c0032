"""C24: the AXI memory models against the AXI memory specification (Axi.tla)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from axilib import *


def build(d):
    """Verilog of a module 'dut' holding the memory model of design d."""
    import veriloggen as vg
    import veriloggen.thread as vthread
    import veriloggen.types.axi as axi
    import numpy as np
    m = vg.Module('dut')
    clk, rst = m.Input('CLK'), m.Input('RST')
    kw = dict(d['kw'])
    if d['img'] is not None:
        kw['memimg'] = np.array(d['img'], dtype=np.int64)
        if d['img_dw']:
            kw['memimg_datawidth'] = d['img_dw']
    ports = []
    for i in range(d['np']):
        ps = {}
        for s, w, mst in sigs(d['dw'], 32, d['idw'], ridw=d['ridw']):
            n = 'p%d_%s' % (i, s)
            ps[n] = (m.Input if mst else m.Output)(n, None if w == 1 and s not in ('awid', 'arid', 'wstrb') else w)
        ports.append(ps)
    for c, w in (('waddr', d['idw']), ('wresp', d['idw']), ('raddr', d['ridw']), ('rdata', d['ridw'])):
        if w:
            kw[c + '_id_width'] = w
    cls = getattr(axi, d['cls'])
    if d['multi']:
        kw['numports'] = d['np']
    mem = cls(m, 'memory', clk, rst, datawidth=d['dw'], **kw)
    for i in range(d['np']):
        if d['multi']:
            mem.connect(i, ports[i], 'p%d' % i)
        else:
            mem.connect(ports[i], 'p%d' % i)
    if d['pre'] or d['post']:
        go = m.Input('go')
        done = m.OutputReg('done', initval=0)

        def text(ops):
            r = []
            for k, o in enumerate(ops):
                if o[0] == 'read':
                    r.append("    print('T %d %%x', mem.read(%d))" % (k, o[1]))
                elif o[0] == 'write':
                    r.append("    mem.write(%d, %d)" % (o[1], o[2]))
                elif o[0] == 'read_word':
                    r.append("    print('T %d %%x', mem.read_word(%d, %d, %d))" % (k, o[1], o[2], o[3]))
                else:
                    r.append("    mem.write_word(%d, %d, %d, %d)" % (o[1], o[2], o[4], o[3]))
            return r
        pre = [o for o in d['pre']]
        n0 = len(pre)
        src = ['def prog():'] + text(pre) + ['    done.value = 1', '    while go == 0:', '        pass'] + \
            [x.replace("'T ", "'T P") for x in text(d['post'])] + ["    print('THREAD-END')"]
        mod = load_src('\n'.join(src) + '\n', mem=mem, go=go, done=done)
        th = vthread.Thread(m, 'th', clk, rst, mod.prog)
        th.start()
    return m.to_verilog()


def bytes_of(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def init_byte(d, a):
    if d['img'] is None:
        wb = d['kw'].get('mem_datawidth', 32) // 8
        i, j = divmod(a, wb)
        return (i >> (8 * j)) & 255
    wb = (d['img_dw'] or d['kw'].get('mem_datawidth', 32)) // 8
    i, j = divmod(a, wb)
    return (int(d['img'][i]) >> (8 * j)) & 255 if i < len(d['img']) else 0


def run(d):
    v = build(d)
    extra, conn = '', ''
    if d['pre'] or d['post']:
        conn = ', .go(tb_fin), .done(tb_go)'
        extra = ''
    AXP = []
    for i, q in enumerate(d['ports']):
        AXP.append(dict(pre='p%d_' % i, dw=d['dw'], idw=d['idw'], ridw=d['ridw'], AW=q['AW'], W=q['W'], AR=q['AR'],
                        seed=q['seed'], readies=q['readies']))
    tb = master_tb('dut', AXP, d['maxcyc'], extra, conn)
    if conn:
        tb = tb.replace('integer tb_q;', 'integer tb_q; reg tb_fin; wire tb_go; initial tb_fin = 0;')
        tb = tb.replace('#48 RST = 0;', '#48 RST = 0;')
        # traffic only between the two halves of the thread program
        tb = tb.replace('end else begin\n if(p', 'end else if(tb_go === 1) begin\n if(p')
        tb = tb.replace('if(tb_q > 30) begin $display', 'if(tb_q > 30) tb_fin <= 1;\n if(tb_q > %d) begin $display' % (
            40 + 12 * (len(d['post']) + 1)))
    lines = simulate([v, tb], timeout=200)
    recs, other = parse(lines, d['dw'])
    tr = {}
    for o in other:
        f = o.split()
        if f[:1] == ['T']:
            tr[f[1]] = f[2]
    th = dict(values=tr, end='THREAD-END' in other)
    return dict(recs=recs, done='DONE' in other, th=th)


# ---------------------------------------------------------------------------
def gen(rng, k, thorough):
    """A random memory model and random traffic on its ports."""
    cls = ['AxiMemoryModel', 'AxiMemoryModel', 'AxiMultiportMemoryModel', 'AxiSerialMultiportMemoryModel',
           'AxiSerialMemoryModel'][k % 5]
    multi = 'Multiport' in cls
    npo = rng.choice((1, 2, 2, 3)) if multi else 1
    dw = rng.choice((32, 32, 32, 64, 16, 8, 128))
    nb = dw // 8
    idw = rng.choice((0, 0, 0, 4, 2))
    ridw = rng.choice((idw, idw, 0, 6, 3))
    kw = dict(mem_addrwidth=13)
    if rng.random() < .7:
        kw.update(write_delay=rng.choice((0, 1, 3, 10)), read_delay=rng.choice((0, 1, 3, 10)),
                  sleep_interval=rng.choice((0, 2, 3, 8, 16)), keep_sleep=rng.choice((0, 1, 2, 4)))
        if kw['sleep_interval'] == 1:
            kw['sleep_interval'] = 2
    if 'Serial' not in cls and rng.random() < .5:
        kw.update(req_fifo_addrwidth=rng.choice((2, 3, 4)), data_fifo_addrwidth=rng.choice((2, 3, 5)))
    if rng.random() < .5:
        kw['mem_datawidth'] = rng.choice((8, 16, 32, 64))
    img = None
    img_dw = None
    if rng.random() < .5:
        iw = kw.get('mem_datawidth', 32)
        if rng.random() < .4:
            img_dw = rng.choice((8, 16, 32))
            iw = img_dw
        img = [rng.randrange(1 << min(iw, 62)) - (rng.randrange(2) << (iw - 1) if iw < 62 else 0)
               for _ in range(8192 // (iw // 8))]
        if rng.random() < .3:
            img = img[:len(img) // 2]
    img_given = img
    ports = []
    span = 8192 if img is None or len(img) * (img_dw or kw.get('mem_datawidth', 32)) // 8 == 8192 else 4096
    long_done = False
    for p in range(npo):
        # one region per port for writing keeps the order of writes well defined;
        # reads go anywhere, and regions overlap in half of the designs
        shared = rng.random() < .5
        lo, hi = (0, span) if shared else (p * span // npo & ~127, (p + 1) * span // npo & ~127)
        hot = lo + rng.randrange((hi - lo) // 64) * 64
        AW, W, AR = [], [], []
        nw, nr = rng.randrange(2, 9), rng.randrange(2, 9)

        def req(maxlen):
            nonlocal long_done
            if not long_done and rng.random() < .08:
                ln = rng.choice((255, 128, 64))
                long_done = True
            else:
                ln = rng.choice((0, 0, 1, 2, 3, 7, rng.randrange(16)))
            while (ln + 1) * nb > min(4096, hi - lo):
                ln //= 2
            if rng.random() < .6:
                a = hot + rng.randrange(0, 64, nb) if nb <= 64 else hot
            else:
                a = lo + rng.randrange((hi - lo) // nb) * nb
            a -= a % nb
            a = min(a, hi - (ln + 1) * nb)
            if a % 4096 + (ln + 1) * nb > 4096:
                a = a - a % 4096 + 4096 - (ln + 1) * nb
            return a, ln
        gapm = rng.choice((0, 0, 3, 20))
        early = rng.random() < .4
        seqn = rng.random() < .5       # reads wait for the responses of earlier writes
        for i in range(nw):
            a, ln = req(0)
            AW.append(dict(addr=a, len=ln, id=rng.randrange(1 << idw) if idw else 0, gap=rng.randrange(gapm + 1),
                           wb=0, wr=0))
            for j in range(ln + 1):
                st = (1 << nb) - 1 if rng.random() < .7 else rng.randrange(1 << nb)
                W.append(dict(data=rng.randrange(1 << dw), strb=st, last=int(j == ln),
                              gap=rng.choice((0, 0, 0, rng.randrange(gapm + 1))), waw=0 if early else i + 1))
        for i in range(nr):
            a, ln = req(0)
            if AW and rng.random() < .6:
                q = rng.choice(AW)
                a, ln = q['addr'], q['len']
            AR.append(dict(addr=a, len=ln, id=rng.randrange(1 << ridw) if ridw else 0, gap=rng.randrange(gapm + 1),
                           wb=0, wr=0))
        if seqn:
            # alternate: AW i waits for read i-1 of this port's own order; AR i for responses
            for i, q in enumerate(AR):
                q['wb'] = min(i + 1, nw) if npo == 1 else 0
            if rng.random() < .5 and npo == 1:
                for i, q in enumerate(AW):
                    q['wr'] = min(i, nr)
        rd = (16 if cls == 'AxiMemoryModel' and k % 20 else rng.choice((16, 16, 8, 2)), rng.choice((16, 16, 8, 2)))
        ports.append(dict(AW=AW, W=W, AR=AR, seed=rng.randrange(1 << 30), readies=rd))
    pre = post = ()
    if rng.random() < .4:
        mb = kw.get('mem_datawidth', 32) // 8

        def ops(n):
            r = []
            for _ in range(n):
                c = rng.randrange(4)
                hot = rng.choice(ports[0]['AW'])['addr'] & ~63
                a = rng.choice((hot, rng.randrange(span - 64))) + rng.randrange(16)
                if c == 0:
                    r.append(('read', a))
                elif c == 1:
                    r.append(('write', a, rng.randrange(1 << (8 * mb - 1))))
                else:
                    bits = rng.choice((1, 2, 4, 8, 12, 16, 32, 6, 5, 3, 24, 7))
                    i = rng.randrange(12)
                    if c == 2:
                        r.append(('read_word', i, a, bits))
                    else:
                        r.append(('write_word', i, a, bits, rng.randrange(1 << min(bits, 31))))
            return r
        pre, post = ops(6), ops(8)
    beats = sum(q['len'] + 1 for p in ports for q in p['AW'] + p['AR'])
    return dict(cls=cls, multi=multi, np=npo, dw=dw, idw=idw, ridw=ridw, kw=kw, img=img_given, img_dw=img_dw, ports=ports,
                pre=list(pre), post=list(post), maxcyc=4000 + 400 * sum(len(p['AW']) + len(p['AR']) for p in ports) + 60 * beats)


def thread_recs(d, ops, r, post):
    """Thread accesses as records for the specification."""
    out = []
    mb = d['kw'].get('mem_datawidth', 32) // 8
    for k, o in enumerate(ops):
        key = ('P%d' if post else '%d') % k
        if o[0] in ('read', 'read_word'):
            v = r['th']['values'].get(key)
            bits = 8 * mb if o[0] == 'read' else o[3]
            x = None if v is None else parse_hex(v)
            bl = [2] * bits if x is None else [(x >> i) & 1 for i in range(bits)]
        else:
            x = o[2] if o[0] == 'write' else o[4]
            bits = 8 * mb if o[0] == 'write' else o[3]
            bl = [(x >> i) & 1 for i in range(bits)]
        b0 = 8 * o[1] if o[0] in ('read', 'write') else 8 * o[2] + o[1] * bits
        out.append([o[0][0], b0, bl])
    return out


def main():
    chk = Check('C24')
    model_check(chk, 'AxiMC', 'AxiMC.cfg')
    model_check(chk, 'AxiMC', 'AxiMC_2.cfg')
    if not chk.quick():
        model_check(chk, 'AxiMC', 'AxiMC_6.cfg')
        model_check(chk, 'AxiMC', 'AxiMC_full.cfg', timeout=3000)
    N = chk.n(80, 900)
    D = [gen(chk.rng, k, not chk.quick()) for k in range(N)]
    traces, idx = [], []
    for d, r in zip(D, pmap(run, D)):
        if r[0] != 'ok':
            chk.violation('%s:%s' % (d['cls'], r[0]), r[1], dict(design=strip(d), error=r[1:]))
            continue
        r = r[1]
        bad = [x for x in r['recs'] if 'x' in x]
        if bad:
            chk.violation('%s:unknown' % d['cls'], 'unknown value in %s at %s' % (bad[0]['x'], bad[0]), strip(d))
            continue
        if d['post'] and not r['th']['end']:
            if r['done']:
                chk.violation('%s:thread-stuck' % d['cls'], 'the thread program did not finish', strip(d))
                continue
        img = []
        if d['img'] is not None:
            nbytes = len(d['img']) * (d['img_dw'] or d['kw'].get('mem_datawidth', 32)) // 8
            img = [init_byte(d, a) for a in range(nbytes)]
        traces.append(dict(ports=d['np'], cfg=dict(bytes=d['dw'] // 8, size=(d['dw'] // 8).bit_length() - 1, mem=True,
                                                  announced=False, img=img,
                                                  wordbytes=d['kw'].get('mem_datawidth', 32) // 8),
                           pre=thread_recs(d, d['pre'], r, False), recs=r['recs'],
                           post=thread_recs(d, d['post'], r, True)))
        idx.append(d)
    res = validate(chk, 'AxiTrace', 'AxiTrace.cfg', traces, jobs=8)
    for (i, ok, line, clause, det) in res:
        if not ok:
            d = idx[i]
            lo = max(0, line - 6)
            low = ':bready-low' if clause == 'b:stable' and any(q['readies'][0] < 16 for q in d['ports']) else ''
            chk.violation('%s:%s%s' % (d['cls'], clause, low), 'record %d: %s' % (line, det),
                          dict(design=strip(d), records=traces[i]['recs'][lo:line + 2]))
    for t in traces[:2]:
        chk.sample([x for x in t['recs'][:6]])
    chk.extra['designs'] = N
    chk.extra['bursts'] = sum(len(p['AW']) + len(p['AR']) for d in D for p in d['ports'])
    chk.assumptions = ['masters are protocol compliant: aligned INCR bursts of full beats inside the memory, not crossing 4 KB',
                       'thread accesses happen while the bus is idle']
    return chk.finish()


def strip(d):
    e = dict(d)
    if e['img'] is not None and len(e['img']) > 64:
        e['img'] = '%d words' % len(e['img'])
    return e


if __name__ == '__main__':
    sys.exit(main())
