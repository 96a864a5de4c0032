"""C10: DMA moves exactly the requested words (Dma.tla)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dmalib import *


def units(hexs, bits, u):
    x = parse_hex(hexs)
    n = bits // u
    if x is None:
        return [-1] * n
    return [(x >> (u * i)) & ((1 << u) - 1) for i in range(n)]


def trace(d, r, rnd=()):
    u = d['unit']
    au = 8 // u
    cfg = dict(bus=d['dw'] // u, unit=u, aunit=au, round=list(rnd),
               rams=[dict(n=x['n'], k=x['dw'] // u, size=1 << x['aw'], m=x.get('m', 1)) for x in d['rams']])
    init = [[[[(ram_init(x, b, a) >> (u * i)) & ((1 << u) - 1) for i in range(x['dw'] // u)]
              for a in range(1 << x['aw'])] for b in range(x['n'])] for x in d['rams']]
    ops = []
    for k, o in enumerate(d['ops']):
        if o['op'] == 'read':
            ops.append(['read', o['addr'], units(r['vals'].get(k, 'x'), d['dw'], u)])
        elif o['op'] in ('write', 'write_fence'):
            ops.append(['write', o['addr'], [(o['value'] >> (u * i)) & ((1 << u) - 1) for i in range(d['dw'] // u)]])
        elif o['op'] == 'base':
            ops.append(['base', o['addr']])
        elif o['op'] == 'dma':
            mode = 'plain' if o['mode'] == 'packed' and o['n'] == 1 else o['mode']
            ops.append(['dma', o['dir'], mode, o['ram'] + 1, o['bank'], o['laddr'], o['gaddr'], o['size'],
                        o['stride'], o['bs']])
    mem = []
    for a, v in r['mem']:
        v = parse_hex(v)
        for i in range(au):
            x = -1 if v is None else (v >> (u * i)) & ((1 << u) - 1)
            if x != (slave_init(a) >> (u * i)) & ((1 << u) - 1):
                mem.append([a * au + i, x])
    ops.append(['memr', mem])
    for i, x in enumerate(d['rams']):
        for b in range(x['n']):
            for a in range(1 << x['aw']):
                ops.append(['ramr', i + 1, b, a, units(r['dump'].get((i, b, a), 'x'), x['dw'], u)])
    return dict(cfg=cfg, init=init, ops=ops)


def rounding(d):
    """The deviations that the design's transfers could show."""
    s = set()
    for o in d['ops']:
        if o['op'] != 'dma':
            continue
        r = d['rams'][o['ram']]
        pk = pack_of(r, o['mode'])
        wd = r['dw'] * pk
        if o['size'] % pk:
            s.add('packed')
        q = max(1, d['dw'] // wd)
        n = -(-o['size'] // pk)
        if o['dir'] == 'w' and n % q:
            s.add('wide')
    return sorted(s)


def brief(d):
    return dict(dw=d['dw'], kw=d['kw'], s=d['s'], rams=d['rams'], src=d.get('src'))


def feature(d):
    """A name for the kinds of transfer in the design."""
    s = set()
    for o in d['ops']:
        if o['op'] == 'dma':
            r = d['rams'][o['ram']]
            wd = r['dw'] * pack_of(r, o['mode'])
            s.add('%s%s%s' % (o['dir'], o['mode'], '=' if wd == d['dw'] else '<' if wd < d['dw'] else '>'))
    return ','.join(sorted(s))


def main():
    chk = Check('C10')
    if os.path.exists(os.path.join(SPEC, 'DmaMC.cfg')):
        model_check(chk, 'DmaMC', 'DmaMC.cfg')
    if not chk.quick():
        model_check(chk, 'DmaMC', 'DmaMC_4.cfg')
    N = chk.n(90, 900)
    D = [gen(chk.rng, k, not chk.quick(), lite=k % 15 == 14) for k in range(N)]
    D = judge(chk, D)
    judge(chk, [zero(chk.rng, k) for k in ('r', 'w')], tag='zero-size:')
    chk.extra['designs'] = N
    chk.extra['transfers'] = sum(o['op'] == 'dma' for d in D for o in d['ops'])
    chk.assumptions = ['transfers stay inside RAM and memory; concurrent transfers touch disjoint words and do not use one RAM port in both directions',
                       'strides are positive, and multiples of the number of banks for packed transfers']
    return chk.finish()


def zero(rng, dirn):
    """A program with one transfer of no words."""
    d = gen(rng, 0)
    d.update(dw=32, rams=[dict(n=1, m=1, made='own', dw=32, aw=4, ports=1, init=None, seed=(77777, 3))], kw={}, idw=0,
             disable=[], unit=8, style=0)
    d['s'].update(aw=16, w=16, ar=16, r=16, b=16, mode='', maxq=4, blat=0, rlat=0)
    d['ops'] = [dict(op='dma', dir=dirn, mode='plain', ram=0, bank=0, laddr=3, gaddr=64, size=0, stride=1, bs=1, port=0,
                     n=1, m=1, **{'async': False})]
    d['used'] = [dirn]
    return d


def judge(chk, D, tag=''):
    traces, idx = [], []
    for i, (d, r) in enumerate(zip(D, pmap(run, D))):
        if r[0] != 'ok':
            chk.violation(tag + '%s' % r[0], r[1], dict(design=brief(d), error=r[1:]))
            continue
        d['src'] = src_of(d)
        r = r[1]
        if not r['done']:
            chk.violation(tag + 'stuck:%s' % ('transfer' if not r['end'] else 'dump'), 'the program did not finish: %s' % feature(d), brief(d))
            continue
        if r['out']:
            chk.violation(tag + 'outside', '%s' % r['out'][:3], brief(d))
            continue
        traces.append(trace(d, r))
        idx.append((d, r))
    res = validate(chk, 'DmaTrace', 'DmaTrace.cfg', traces, jobs=8)
    again = []
    for (i, ok, line, clause, det) in res:
        if not ok:
            rnd = rounding(idx[i][0])
            if rnd:
                again.append((i, line, clause, det, rnd))
            else:
                chk.violation(tag + clause, '%s: op %d: %s' % (feature(idx[i][0]), line, det), brief(idx[i][0]))
    if again:
        res = validate(chk, 'DmaTrace', 'DmaTrace.cfg', [trace(idx[a[0]][0], idx[a[0]][1], a[4]) for a in again], jobs=8,
                       count=False)
        okk = {r[0]: r for r in res}
        for j, a in enumerate(again):
            d = idx[a[0]][0]
            if okk[j][1]:
                for x in a[4]:
                    chk.violation(tag + 'dev:%s-rounds-up' % x, 'op %d: %s' % (a[1], a[3]), brief(d))
            else:
                chk.violation(tag + okk[j][3], '%s: op %d: %s' % (feature(d), okk[j][2], okk[j][4]), brief(d))
    for t in traces[:2]:
        chk.sample([x for x in t['ops'] if x[0] != 'ramr'][:-1])
    return D


if __name__ == '__main__':
    sys.exit(main())
