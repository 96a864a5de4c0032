"""C11: AXI slave register files (AxiReg.tla) and their traffic (Axi.tla)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from axilib import *


def gen(rng, k, strobes=False):
    lite = k % 3 == 1
    dw = rng.choice((32, 32, 32, 64, 16, 8))
    nb = dw // 8
    length = rng.choice((4, 4, 2, 8, 3, 5, 1, 16))
    d = dict(lite=lite, dw=dw, length=length, aw=rng.choice((32, 32, 16)), kw={}, idw=0)
    if not lite and rng.random() < .3:
        d['idw'] = rng.choice((1, 2, 4))
        for x in ('waddr', 'wdata', 'wresp', 'raddr', 'rdata'):
            d['kw'][x + '_id_width'] = d['idw']
    if rng.random() < .2:
        d['kw']['fsm_as_module'] = True
    mw = max(1, (length - 1).bit_length())
    span = 1 << mw
    small = lambda: rng.choice((0, 1, 1, 2, 3))
    big = lambda: rng.choice((small(), small(), small(), rng.getrandbits(dw)))
    hot = [rng.randrange(length) for _ in range(2)]
    idx = lambda: rng.choice(hot) if rng.random() < .7 else rng.randrange(length)
    AW, W, AR = [], [], []
    writes = []
    pace = rng.choice((0, 3, 12, 40))
    gap = lambda: min(255, rng.randrange(0, pace + 1) if rng.random() < .7 else rng.randrange(0, 60))
    for _ in range(rng.randrange(3, 14)):
        if rng.random() < .55:
            n = 1 if lite or rng.random() < .7 else rng.randrange(1, span + 3)
            i0 = idx() if rng.random() < .93 else rng.randrange(span)
            for j in range(n):
                v = big()
                full = (1 << nb) - 1
                st = full if not strobes or rng.random() < .5 else rng.randrange(full)
                W.append(dict(data=v & ((1 << dw) - 1), strb=st, last=int(j == n - 1), gap=gap() if rng.random() < .4 else 0,
                              waw=rng.choice((0, 0, len(AW) + 1))))
                writes.append(((i0 + j) % span, v & ((1 << dw) - 1)))
            hi = rng.randrange(1 << min(8, d['aw'] - 8)) << 8 if rng.random() < .2 else 0
            AW.append(dict(addr=i0 * nb + hi, len=n - 1, id=rng.randrange(1 << d['idw']), gap=gap(),
                           wb=len(AW) if rng.random() < .6 else 0, wr=len(AR) if rng.random() < .4 else 0))
        else:
            n = 1 if lite or rng.random() < .6 else rng.randrange(1, span + 3)
            i0 = idx() if rng.random() < .93 else rng.randrange(span)
            hi = rng.randrange(1 << min(8, d['aw'] - 8)) << 8 if rng.random() < .2 else 0
            AR.append(dict(addr=i0 * nb + hi, len=n - 1, id=rng.randrange(1 << d['idw']), gap=gap(),
                           wb=len(AW) if rng.random() < .4 else 0, wr=len(AR) if rng.random() < .6 else 0))
    d.update(AW=AW, W=W, AR=AR, seed=rng.randrange(1, 1 << 30), readies=[rng.choice((16, 16, 12, 6, 2)) for _ in range(2)])
    # thread scripts
    d['th'] = []
    nth = rng.choice((1, 1, 1, 2))
    for t in range(nth):
        ops = []
        left = [w for w in writes if w[0] < length]
        for _ in range(rng.randrange(3, 10)):
            c = rng.random()
            i = idx()
            tv = lambda: rng.choice((small(), small(), -1, rng.getrandbits(min(dw - 1, 31))))
            # threads that change one register at the same time need a lock
            mine = lambda i: nth == 1 or i % 2 == t
            if c < .25:
                ops.append(['r', i])
            elif c < .4 and mine(i):
                ops.append(['w', i, tv()])
            elif c < .6 and mine(i):
                ops.append(['wf', i, tv(), rng.choice((0, 0, tv()))])
            else:
                if left and rng.random() < .8:
                    q = rng.randrange(min(3, len(left)))
                    i, v = left[q]
                    if v >> (dw - 1):
                        v -= 1 << dw
                    if not -4 <= v < 1 << 31:
                        v = small()
                    left = left[q + 1:]
                else:
                    v = small()
                pol = int(rng.random() < .8)
                ops.append(['wait', i, v, pol] if rng.random() < .4 or not mine(i) else ['waitf', i, v, rng.choice((0, 0, small())), pol])
            if rng.random() < .3:
                ops.append(['pause', rng.choice((1, 3, 10, 40))])
        d['th'].append(ops)
    return d


def hx(v, dw):
    return '%x' % (v & ((1 << dw) - 1))


def src_of(d):
    L = []
    for t, ops in enumerate(d['th']):
        L.append('def prog%d():' % t)
        L.append('    for i in range(3):\n        pass')
        for k, o in enumerate(ops):
            if o[0] == 'pause':
                L.append('    for i in range(%d):\n        pass' % o[1])
                continue
            a = str(o[1])
            if (k + o[1]) % 3 == 1:
                L.append('    a%d = %d' % (k, o[1]))
                a = 'a%d' % k
            pr = "    print('B %d %d %%d', now)" % (t, k)
            en = "    print('E %d %d %%d ok', now)" % (t, k)
            if o[0] == 'r':
                L += [pr, '    v = saxi.read(%s)' % a, "    print('E %d %d %%d %%x', now, v)" % (t, k)]
                continue
            if o[0] == 'w':
                c = 'saxi.write(%s, %d)' % (a, o[2])
            elif o[0] == 'wf':
                c = 'saxi.write_flag(%s, %d%s)' % (a, o[2], '' if o[3] == 0 and k % 2 else ', resetvalue=%d' % o[3])
            elif o[0] == 'wait':
                c = 'saxi.wait(%s, %d%s)' % (a, o[2], ', polarity=False' if not o[3] else '')
            else:
                c = 'saxi.wait_flag(%s, %d%s%s)' % (a, o[2], '' if o[3] == 0 and k % 2 else ', resetvalue=%d' % o[3],
                                                  ', polarity=False' if not o[4] else '')
            L += [pr, '    ' + c, en]
        L.append("    print('F %d')" % t)
    for t in range(len(d['th'])):
        L.append("vthread.Thread(m, 'th%d', clk, rst, prog%d, datawidth=%d).start()" % (t, t, max(32, d['dw'])))
    return '\n'.join(L) + '\n'


def build(d):
    import veriloggen as vg
    import veriloggen.thread as vthread
    m = vg.Module('dut')
    clk, rst = m.Input('CLK'), m.Input('RST')
    now = m.Input('now', 32)
    cls = vthread.AXISLiteRegister if d['lite'] else vthread.AXISRegister
    saxi = cls(m, 'saxi', clk, rst, d['dw'], addrwidth=d['aw'], length=d['length'], **d['kw'])
    load_src(src_of(d), m=m, clk=clk, rst=rst, now=now, saxi=saxi, vthread=vthread)
    return m.to_verilog()


def run(d):
    v = build(d)
    slow = 16 // min(d['readies'])
    maxcyc = 2000 + 300 * slow * (len(d['AW']) + len(d['AR']))
    tb = master_tb('dut', [dict(pre='saxi_', dw=d['dw'], aw=d['aw'], idw=d['idw'], lite=d['lite'], AW=d['AW'], W=d['W'], AR=d['AR'],
                                seed=d['seed'], readies=d['readies'])], maxcyc, '', ', .now(tb_t)')
    tb = tb.replace('tb_q > 30', 'tb_q > 1000')
    lines = simulate([v, tb], timeout=120)
    recs, other = parse(lines, d['dw'])
    return dict(recs=recs, done='DONE' in other, other=other)


def beat_hex(bs, dw):
    if -1 in bs:
        return 'x'
    return '%x' % (sum(b << (8 * i) for i, b in enumerate(bs)) & ((1 << dw) - 1))


def history(d, r, race=0):
    """Operations of bus and threads in order of time."""
    dw, nb = d['dw'], d['dw'] // 8
    mask = (1 << max(1, (d['length'] - 1).bit_length())) - 1
    ev = []
    awq, wq, arq = [], [], []
    launched = 0             # beats already invoked
    wi = wj = 0              # next beat's burst and number
    nbr = nrb = 0
    seen_b = seen_r = False
    rq = []
    open_b = []
    for x in r['recs']:
        t = x['t']
        if x['b'] and not seen_b:
            for _ in range(open_b[0] if open_b else 0):
                ev.append([t, 0, 'e', 1, ['bw', 0], 'ok'])
            open_b = open_b[1:]
        seen_b = bool(x['b']) and x['b'][0] == 0
        if x['r'] and not seen_r:
            i = rq.pop(0) if rq else 0
            ev.append([t, 0, 'e', 2, ['br', i], beat_hex(x['r'][4], dw)])
        seen_r = bool(x['r']) and x['r'][0] == 0
        if x['aw'] and x['aw'][0] == 1:
            awq.append(x['aw'])
        if x['w'] and x['w'][0] == 1:
            wq.append(x['w'])
        while launched < len(wq) and wi < len(awq):
            w = wq[launched]
            i = ((awq[wi][1] // nb) + wj) & mask
            ev.append([t, 1, 'b', 1, ['bw', i, beat_hex(w[3], dw)], ''])
            launched += 1
            wj += 1
            if w[1] == 1:
                open_b.append(wj)
                wi, wj = wi + 1, 0
        if x['ar'] and x['ar'][0] == 1:
            for j in range((0 if d['lite'] else x['ar'][2]) + 1):
                i = ((x['ar'][1] // nb) + j) & mask
                ev.append([t, 1, 'b', 2, ['br', i], ''])
                rq.append(i)
    for o in r['other']:
        f = o.split()
        if f[0] in 'BE' and len(f) > 3:
            op = d['th'][int(f[1])][int(f[2])]
            op = [op[0], op[1]] + ([hx(op[2], dw)] if len(op) > 2 else []) + ([hx(op[3], dw)] if op[0] in ('wf', 'waitf') else []) + \
                ([op[-1]] if op[0] in ('wait', 'waitf') else [])
            res = '' if f[0] == 'B' else f[4]
            if f[0] == 'E' and op[0] == 'r':
                x = parse_hex(res)
                res = 'x' if x is None else hx(x, dw)
            ev.append([int(f[3]), 0 if f[0] == 'E' else 1, f[0].lower(), 3 + int(f[1]), op, res])
    ev.sort(key=lambda e: e[:2])
    ev = [[e[0]] + e[2:] for e in ev]
    ev.append([10 ** 8, 'Z', 1, ['end', 0], ''])
    return dict(np=2 + len(d['th']), K=4, length=d['length'], single=int(len(d['th']) == 1), race=race, ev=ev)


def brief(d):
    return dict({k: v for k, v in d.items()}, src=src_of(d))


def judge(chk, D, tag=''):
    T, H, idx = [], [], []
    for d, r in zip(D, pmap(run, D)):
        name = 'lite:' if d['lite'] else ''
        if r[0] != 'ok':
            chk.violation(tag + name + r[0], r[1], dict(design=brief(d), error=r[1:]))
            continue
        r = r[1]
        bad = [x for x in r['recs'] if 'x' in x]
        mask = (1 << max(1, (d['length'] - 1).bit_length()))
        if bad:
            chk.violation(tag + name + 'unknown', 'unknown value in %s' % bad[0]['x'], brief(d))
            continue
        if not r['done']:
            chk.violation(tag + name + 'completion', 'the bus requests were not answered', brief(d))
            continue
        nb = d['dw'] // 8
        T.append(dict(ports=1, cfg=dict(bytes=nb, size=0 if d['lite'] else nb.bit_length() - 1, mem=False, announced=False,
                                        img=[], wordbytes=0), pre=[], recs=r['recs'], post=[]))
        H.append((d, r))
    res = validate(chk, 'AxiTrace', 'AxiTrace.cfg', T, jobs=8)
    for (i, ok, line, clause, det) in res:
        if not ok:
            d = H[i][0]
            chk.violation(tag + ('lite:' if d['lite'] else '') + 'protocol:' + clause, 'record %d: %s' % (line, det),
                          dict(design=brief(d), records=T[i]['recs'][max(0, line - 6):line + 2]))
    hist = [history(d, r) for d, r in H]
    res = validate(chk, 'AxiRegTrace', 'AxiRegTrace.cfg', hist, jobs=8)
    again = [(i, line, clause, det) for (i, ok, line, clause, det) in res if not ok]
    if again:
        res = validate(chk, 'AxiRegTrace', 'AxiRegTrace.cfg', [history(*H[a[0]], race=1) for a in again], jobs=8, count=False)
        okk = {x[0]: x for x in res}
        for j, a in enumerate(again):
            d = H[a[0]][0]
            lo = max(0, a[1] - 14)
            chk.violation(tag + ('race:wait-flag' if okk[j][1] else ('lite:' if d['lite'] else '') + a[2]),
                          'event %d: %s' % (a[1], a[3]), dict(design=brief(d), events=hist[a[0]]['ev'][lo:a[1] + 1]))
    return hist


def main():
    chk = Check('C11')
    model_check(chk, 'AxiRegMC', 'AxiRegMC.cfg')
    model_check(chk, 'AxiRegMC', 'AxiRegMC_free.cfg')
    N = chk.n(160, 2000)
    H = judge(chk, [gen(chk.rng, k) for k in range(N)])
    judge(chk, [gen(chk.rng, k, strobes=True) for k in range(4)], tag='strobe:')
    chk.extra.update(designs=N, operations=sum(len(h['ev']) // 2 for h in H),
                     waits_answered=sum(e[1] == 'e' and e[3][0] in ('wait', 'waitf') for h in H for e in h['ev']))
    for h in H[:2]:
        chk.sample(h['ev'][:12])
    chk.assumptions = ['two threads do not change one register at the same time', 'the bus master is compliant and uses full write strobes and aligned INCR bursts']
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
