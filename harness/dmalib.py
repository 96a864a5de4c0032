"""Random programs for a bus master with a DMA controller (C09, C10)."""
from vlib import *
from axilib import *

W32 = lambda x: x & 0xffffffff


def gen(rng, k, thorough=False, lite=False, odd=True):
    if lite:
        return gen_lite(rng, k)
    dw = rng.choice((32, 32, 32, 64, 128, 16, 8))
    unit = 8
    rams = []
    long_ = rng.random() < .25
    for i in range(rng.choice((1, 2, 2, 3))):
        style = rng.choice(('same', 'same', 'narrow', 'wide', 'multi', 'multi', 'multi'))
        aw = rng.choice((4, 5, 6)) if not long_ else rng.choice((8, 9, 10))
        n = 1
        if style == 'multi':
            n = rng.choice((2, 2, 4, 3))
            rdw = rng.choice((dw, dw, dw // 2, dw // 4, dw * 2))
            aw = max(3, aw - 1)
        else:
            rdw = {'same': dw, 'narrow': dw * rng.choice((2, 2, 4, 3)), 'wide': dw // rng.choice((2, 4, 8))}[style]
        rdw = min(max(rdw, 4), 256)
        if rdw < dw and dw % rdw:
            rdw = dw
        if n == 1 and long_ and rdw > 128:
            aw = 8
        m, made = 1, 'own'
        if n > 1 and rng.random() < .4:
            made = 'list'
            if n == 4 and rng.random() < .7:
                m, made = 2, 'nested'
        if rdw < 8:
            unit = 4
        rams.append(dict(n=n, m=m, made=made, dw=rdw, aw=aw, ports=rng.choice((1, 2, 2)), init=None,
                         seed=(rng.randrange(1, 1 << 20) * 2 + 1, rng.randrange(1 << 28))))
    # widths that do not divide the bus word are only allowed as multiples of it
    d = dict(dw=dw, rams=rams, kw=dict(), nbytes=16384, unit=unit)
    if rng.random() < .4:
        d['kw']['sb_depth'] = rng.choice((1, 2, 3))
    if rng.random() < .3:
        d['kw']['req_fifo_addrwidth'] = rng.choice((2, 3, 4))
    if rng.random() < .3:
        d['kw']['use_global_base_addr'] = True
    if rng.random() < .2:
        d['kw']['fsm_as_module'] = True
    d['idw'] = rng.choice((0, 0, 0, 2, 4))
    for x in ('waddr', 'wresp', 'raddr', 'rdata'):
        if d['idw']:
            d['kw'][x + '_id_width'] = d['idw']
    lo = lambda: rng.choice((16, 16, 12, 6, 2))
    d['s'] = dict(seed=rng.randrange(1, 1 << 30), aw=lo(), w=lo(), ar=lo(), r=lo(), b=lo(),
                  blat=rng.choice((0, 0, 3, 20)), rlat=rng.choice((0, 0, 3, 20)),
                  mode=rng.choice(('', '', 'aw_after_w', 'w_after_aw')), maxq=rng.choice((1, 2, 4, 16)))
    d['odd'] = odd and rng.random() < .15
    d['ops'] = ops(rng, d, rng.randrange(4, 12), long_)
    d['style'] = rng.randrange(3)
    used = set(o['dir'] for o in d['ops'] if o['op'] == 'dma') | set(o['op'][0] for o in d['ops'] if o['op'] in ('read', 'write', 'write_fence'))
    waits = set(w for o in d['ops'] if o['op'] == 'wait' for w in o['how'])
    d['used'] = sorted(used)
    if rng.random() < .5:
        d['disable'] = ['disable_' + dict(r='read', w='write')[x] for x in 'rw' if x not in used]
    return d


def pack_of(r, mode):
    return r['n'] if mode == 'packed' else r['m'] if mode == 'nblock' else 1


MODES = {'nblock': '_block', 'plain': '', 'bank': '_bank', 'block': '_block', 'packed': '_packed', 'bcast': '_bcast'}


def one_dma(rng, d, long_, base, busy, form=None):
    """A random transfer; None if there is no room.  busy: regions in use by
    unfinished transfers: list of ('m'|('r', ram), lo, hi, kind)."""
    dw = d['dw']
    ri = rng.randrange(len(d['rams']))
    r = d['rams'][ri]
    dirn = rng.choice('rw')
    n = r['n']
    if n == 1:
        mode = rng.choice(('plain', 'plain', 'plain', 'packed')) if rng.random() < .2 else 'plain'
    else:
        mode = rng.choice(('plain', 'bank', 'block', 'packed', 'bcast') if n & (n - 1) == 0 else ('bank', 'block', 'bcast'))
        if mode == 'bcast':
            dirn = 'r'
    if r['m'] > 1:
        mode = 'nblock'
    wd = r['dw'] * pack_of(r, mode)
    if wd > dw and wd % dw or wd < dw and dw % wd:
        return None
    depth = 1 << r['aw']
    flat = depth * n
    stride = rng.choice((1, 1, 1, 1, 2, 3, 5))
    bs = 1
    bank = rng.randrange(n)
    q = max(1, dw // wd)               # words per bus word
    if mode == 'packed' and n > 1:
        stride = n * rng.choice((1, 1, 1, 2, 3))
    elif mode == 'packed':
        stride = 1
    elif mode == 'nblock':
        stride = r['m'] * rng.choice((1, 1, 1, 2, 3))
    # number of travelling words that fit
    lim = min(depth, 700 if long_ else 40)
    if mode in ('plain', 'bank', 'bcast'):
        dep = flat if mode == 'plain' else depth
        cap = min(lim, (dep - 1) // stride + 1)
    elif mode == 'block':
        bs = rng.choice((1, 1, 2, 3, 4, 5, 8))
        cap = min(lim * n, ((depth - 1) // stride + 1) // bs * bs * n)
    elif mode == 'nblock':
        m = r['m']
        bp = rng.choice((1, 1, 2, 3, 4))
        bs = bp * m
        cap = min(lim * n // m, ((depth - 1) // (stride // m) + 1) // bp * bp * (n // m))
    else:
        dep = flat
        cap = min(lim, (depth - 1) // max(1, stride // n) + 1) if n > 1 else min(lim, depth)
    cap = min(cap, 4096 * 8 // wd)
    if cap < q:
        return None
    odd = d['odd'] and rng.random() < .5
    size = rng.choice((1, 2, 3, rng.randrange(1, cap + 1), rng.randrange(1, cap + 1), cap))
    size = max(1, min(size, cap))
    if dirn == 'w' and not odd:
        size = max(q, size // q * q)
    eff = -(-size // q) * q if dirn == 'w' else size      # rounded up
    if eff > cap:
        return None
    # first local address
    if mode == 'plain' or (mode == 'packed' and n == 1):
        laddr = rng.randrange(0, flat - (eff - 1) * stride)
        lo, hi = laddr, laddr + (eff - 1) * stride
    elif mode in ('bank', 'bcast'):
        laddr = rng.randrange(0, depth - (eff - 1) * stride)
        lo, hi = 0, flat
    elif mode == 'block':
        per = -(-(-(-eff // bs)) // n) * bs
        laddr = rng.randrange(0, depth - (per - 1) * stride)
        lo, hi = 0, flat
    elif mode == 'nblock':
        bp = bs // m
        per = -(-(-(-eff // bp)) // (n // m)) * bp
        laddr = rng.randrange(0, depth - (per - 1) * (stride // m)) * m + rng.choice((0, 0, rng.randrange(m)))
        lo, hi = 0, flat
    else:
        st = stride // n
        laddr = rng.randrange(0, depth - (eff - 1) * st) * n + rng.choice((0, 0, rng.randrange(n)))
        lo, hi = laddr // n * n, laddr // n * n + (eff - 1) * stride + n - 1
    # sizes are given in single words
    arg = size
    pk = pack_of(r, mode)
    if pk > 1:
        arg = size * pk
        if odd and rng.random() < .7:
            arg -= rng.randrange(1, pk)
    # global address
    nby = -(-eff * wd // 8)
    nby = -(-nby // (dw // 8)) * (dw // 8)
    if nby + 64 > d['nbytes'] - base:
        return None
    for _ in range(8):
        c = rng.randrange(4)
        top = d['nbytes'] - base - nby
        if c == 0:
            g = 4096 * rng.randrange(1, 4) - rng.randrange(1, max(2, nby)) - base
        elif c == 1:
            g = rng.randrange(0, min(256, top))
        else:
            g = rng.randrange(0, top)
        g = max(0, min(g, top))
        if rng.random() < .9 or base % (dw // 8):
            g -= (g + base) % (dw // 8)
            if g < 0:
                g += dw // 8
        mlo = (g + base) // (dw // 8) * (dw // 8)
        if mlo + nby > d['nbytes']:
            continue
        port = rng.randrange(r['ports'])
        want = [('m', mlo, mlo + nby - 1, 'w' if dirn == 'w' else 'r', None),
                (('r', ri), lo, hi, 'r' if dirn == 'w' else 'w', port)]
        clash = False
        for (a, l1, h1, k1, p1) in want:
            for (b, l2, h2, k2, p2) in busy:
                if a == b and l1 <= h2 and l2 <= h1 and 'w' in (k1, k2) and not (a != 'm' and p1 == p2 and k1 == k2 == 'w' and False):
                    clash = True
                # transfers in opposite directions may overlap in time: different ports
                if a == b and a != 'm' and k1 != k2 and p1 == p2:
                    clash = True
        if not clash:
            return dict(op='dma', dir=dirn, mode=mode, ram=ri, bank=bank, laddr=laddr, gaddr=g, size=arg,
                        stride=stride, bs=bs, port=port, want=want, n=n, m=r['m'])
    return None


def ops(rng, d, count, long_):
    out = []
    base = 0
    nb = d['dw'] // 8
    gb = d['kw'].get('use_global_base_addr')
    if gb:
        base = rng.choice((0, 64, 4096, 1024 + 16))
        base -= base % nb
        out.append(dict(op='base', addr=base))
    busy = []

    def wait():
        c = rng.randrange(4)
        if c == 0:
            return ['dma_wait']
        if c == 1:
            return ['dma_wait_read', 'dma_wait_write']
        if c == 2:
            return ['dma_wait_write', 'dma_wait_read']
        return ['dma_wait_write_idle', 'dma_wait_write_response', 'dma_wait_read']
    for _ in range(count):
        c = rng.random()
        if c < .15:
            a = rng.randrange(0, d['nbytes'] - base - nb)
            a -= (a + base) % nb
            if a < 0:
                a += nb
            want = [('m', (a + base) // nb * nb, (a + base) // nb * nb + nb - 1, 'w', None)]
            kind = rng.choice(('read', 'write', 'write_fence'))
            if kind == 'read':
                want = [want[0][:3] + ('r', None)]
            if any(x[0] == 'm' and x[1] <= want[0][2] and want[0][1] <= x[2] and 'w' in (x[3], want[0][3]) for x in busy):
                continue
            v = rng.getrandbits(d['dw'])
            out.append(dict(op=kind, addr=a, value=v))
            if kind == 'write':
                busy += want        # until its response
            continue
        t = one_dma(rng, d, long_, base, busy if rng.random() < .999 else busy)
        if t is None:
            if busy:
                out.append(dict(op='wait', how=wait()))
                busy = []
            continue
        t['async'] = rng.random() < .5
        if not t['async'] and t['dir'] == 'w':
            # waits for all writes
            busy = [x for x in busy if not (x[0] == 'm' and x[3] == 'w')]
        out.append(t)
        if t['async']:
            busy += t['want']
        if busy and rng.random() < .4:
            out.append(dict(op='wait', how=wait()))
            busy = []
        if gb and not busy and rng.random() < .15:
            base = rng.choice((0, 128, 4096 - 64, 2048))
            base -= base % nb
            out.append(dict(op='base', addr=base))
    out.append(dict(op='wait', how=wait()))
    return out


def ram_init(r, b, a):
    """First contents as written by the program (non-negative 31-bit, masked)."""
    v = ((a + b * 977) * r['seed'][0] + r['seed'][1]) & 0x7fffffff
    return v & ((1 << r['dw']) - 1)


def acc(d, i, b, fn):
    r = d['rams'][i]
    if r['made'] == 'own':
        return 'ram%d.%s_bank(%d, i' % (i, fn, b)
    if r['made'] == 'list':
        return 'ram%d_%d.%s(i' % (i, b, fn)
    return 'ram%d_%d.%s_bank(%d, i' % (i, b // r['m'], fn, b % r['m'])


def src_of(d):
    L = ['def prog():']
    for i, r in enumerate(d['rams']):
        m = 0x7fffffff
        if r['n'] == 1:
            L += ['    for i in range(%d):' % (1 << r['aw']),
                  '        ram%d.write(i, (i * %d + %d) & %d)' % (i, r['seed'][0], r['seed'][1], m)]
        else:
            for b in range(r['n']):
                L += ['    for i in range(%d):' % (1 << r['aw']),
                      '        %s, ((i + %d) * %d + %d) & %d)' % (
                          acc(d, i, b, 'write'), b * 977, r['seed'][0], r['seed'][1], m)]
    tmp = 0

    def arg(x, style):
        nonlocal tmp
        if style == 0:
            return str(x)
        L.append('    t%d = %d' % (tmp, x))
        tmp += 1
        return 't%d' % (tmp - 1)
    for k, o in enumerate(d['ops']):
        st = d['style'] if k % 3 else 0
        if o['op'] == 'read':
            if 'delay' in o:
                L.append("    print('V %d %%x', myaxi.read_delayed(%s, %d))" % (k, arg(o['addr'], st), o['delay']))
            else:
                L.append("    print('V %d %%x', myaxi.read(%s))" % (k, arg(o['addr'], st)))
        elif o['op'] in ('write', 'write_fence'):
            if 'delay' in o:
                L.append('    myaxi.write_delayed(%s, %d, %d)' % (arg(o['addr'], st), o['value'], o['delay']))
            else:
                L.append('    myaxi.%s(%s, %d)' % (o['op'], arg(o['addr'], st), o['value']))
        elif o['op'] == 'base':
            L.append('    myaxi.set_global_base_addr(%d)' % o['addr'])
        elif o['op'] == 'wait':
            L += ['    myaxi.%s()' % w for w in o['how']]
        else:
            fn = 'myaxi.dma_%s%s%s' % ('read' if o['dir'] == 'r' else 'write', MODES[o['mode']], '_async' if o['async'] else '')
            pre = 'ram%d' % o['ram']
            a = []
            if o['mode'] == 'bank':
                a.append(arg(o['bank'], st))
            a += [arg(o['laddr'], st), arg(o['gaddr'], st), arg(o['size'], st)]
            if o['mode'] in ('block', 'nblock'):
                a.append(arg(o['bs'], st))
            dflt = o['n'] if o['mode'] == 'packed' else o['m']
            if o['mode'] == 'packed' and o['n'] == 1:
                pass
            elif o['stride'] != dflt or k % 2:
                a.append(('local_bank_stride=' if o['mode'] in ('bank', 'bcast') else 'local_stride=') + arg(o['stride'], st))
            if o['port'] or k % 5 == 0:
                a.append('port=%d' % o['port'])
            L.append('    %s(%s, %s)' % (fn, pre, ', '.join(a)))
    L.append("    print('END')")
    for i, r in enumerate(d['rams']):
        for b in range(r['n']):
            L += ['    for i in range(%d):' % (1 << r['aw']),
                  "        print('D %d %d %%d %%x', i, %s)" % (
                      i, b, 'ram%d.read(i)' % i if r['n'] == 1 else acc(d, i, b, 'read') + ')')]
    L.append('    done.value = 1')
    return '\n'.join(L) + '\n'


def build(d):
    import veriloggen as vg
    import veriloggen.thread as vthread
    m = vg.Module('dut')
    clk, rst = m.Input('CLK'), m.Input('RST')
    done = m.OutputReg('done', initval=0)
    cls = getattr(vthread, d.get('cls', 'AXIM'))
    myaxi = cls(m, 'myaxi', clk, rst, d['dw'], **d['kw'])
    for x in d.get('disable', ()):
        getattr(myaxi, x)()
    g = dict(myaxi=myaxi, done=done)
    for i, r in enumerate(d['rams']):
        if r['n'] == 1:
            g['ram%d' % i] = vthread.RAM(m, 'ram%d' % i, clk, rst, r['dw'], r['aw'], numports=r['ports'])
        elif r['made'] != 'own':
            sub = []
            for j in range(r['n'] // r['m']):
                nm = 'ram%d_%d' % (i, j)
                sub.append(vthread.RAM(m, nm, clk, rst, r['dw'], r['aw'], numports=r['ports']) if r['m'] == 1 else
                           vthread.MultibankRAM(m, nm, clk, rst, r['dw'], r['aw'], numports=r['ports'], numbanks=r['m']))
                g[nm] = sub[-1]
            # the DMA operations also take a plain list
            g['ram%d' % i] = sub if r['m'] == 1 and r['seed'][1] % 2 else vthread.to_multibank_ram(
                sub, keep_hierarchy=r['m'] > 1)
        else:
            g['ram%d' % i] = vthread.MultibankRAM(m, 'ram%d' % i, clk, rst, r['dw'], r['aw'], numports=r['ports'],
                                                  numbanks=r['n'])
    g.update(m=m, clk=clk, rst=rst, vthread=vthread)
    load_src(d["src"] + "vthread.Thread(m, 'th', clk, rst, prog, datawidth=%d).start()\n" % d.get("thread_dw", 32), **g)
    return m.to_verilog()


def run(d):
    d['src'] = d.get('src') or src_of(d)
    v = build(d)
    tot = sum(1 << r['aw'] << (r['n'] - 1) for r in d['rams'])
    beats = sum(o['size'] for o in d['ops'] if o['op'] == 'dma')
    slow = 16.0 / min(d['s'][x] for x in ('aw', 'w', 'ar', 'r', 'b'))
    maxcyc = int(2000 + 40 * tot + beats * 40 * slow + len(d['ops']) * 400 * slow)
    tb = slave_tb('dut', [dict(pre='myaxi_', dw=d['dw'], idw=d.get('idw', 0), lite=d.get('lite', False), s=d['s'],
                               nbytes=d['nbytes'])], maxcyc)
    lines = simulate([v, tb], timeout=300)
    recs, other = parse(lines, d['dw'])
    out = dict(recs=recs, end='END' in other, done='DONE' in other, vals={}, dump={}, mem=[], out=[], t=maxcyc)
    for l in other:
        f = l.split()
        if f[0] == 'V':
            out['vals'][int(f[1])] = f[2]
        elif f[0] == 'D':
            out['dump'][(int(f[1]), int(f[2]), int(f[3]))] = f[4]
        elif f[0] == 'M1':
            out['mem'].append((int(f[1]), f[2]))
        elif f[0] == 'OUT':
            out['out'].append(l)
    return out


def axi_trace(d, r, mem=True):
    nb = d['dw'] // 8
    return dict(ports=1, cfg=dict(bytes=nb, size=0 if d.get('lite') else nb.bit_length() - 1, mem=False, announced=True, img=[], wordbytes=0),
                pre=[], recs=r['recs'], post=[])


def gen_lite(rng, k):
    dw = rng.choice((32, 32, 64))
    lo = lambda: rng.choice((16, 16, 12, 6, 2))
    d = dict(dw=dw, rams=[], kw=dict(), nbytes=4096, unit=8, lite=True, idw=0, style=rng.randrange(3), odd=False,
             cls=rng.choice(('AXIMLite', 'AXIMLiteVerify')))
    d['s'] = dict(seed=rng.randrange(1, 1 << 30), aw=lo(), w=lo(), ar=lo(), r=lo(), b=lo(),
                  blat=rng.choice((0, 0, 3, 20)), rlat=rng.choice((0, 0, 3, 20)),
                  mode=rng.choice(('', '', 'w_after_aw')), maxq=rng.choice((1, 2, 4, 16)))
    if rng.random() < .4:
        d['kw']['sb_depth'] = rng.choice((1, 2, 3))
    base = 0
    out = []
    nb = dw // 8
    if rng.random() < .3:
        d['kw']['use_global_base_addr'] = True
        base = rng.choice((0, 64, 1024))
        out.append(dict(op='base', addr=base))
    hot = [rng.randrange(0, 2048) & -nb for _ in range(4)]
    for _ in range(rng.randrange(4, 14)):
        out.append(dict(op=rng.choice(('read', 'write', 'write_fence')), addr=rng.choice(hot), value=rng.getrandbits(dw)))
    d['ops'] = out
    d['used'] = sorted(set(o['op'][0] for o in out if o['op'] != 'base'))
    return d
