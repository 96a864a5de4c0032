"""C09: traffic of the AXI masters against the protocol rules of Axi.tla."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dmalib import *
from check_C10 import brief, feature


def main():
    chk = Check('C09')
    model_check(chk, 'AxiMC', 'AxiMC.cfg')
    N = chk.n(90, 900)
    D = []
    for k in range(N):
        d = gen(chk.rng, k, not chk.quick(), lite=k % 6 == 5)
        D.append(verify_ops(chk.rng, d))
    traces, idx = [], []
    for d, r in zip(D, pmap(run, D)):
        if r[0] != 'ok':
            chk.violation('%s' % r[0], r[1], dict(design=brief(d), error=r[1:]))
            continue
        d['src'] = src_of(d)
        r = r[1]
        # a direction the design never uses is not driven (unless it is disabled)
        idle = [c for c in CH if ('r' if c in ('ar', 'r') else 'w') not in d['used'] and not d.get('disable')]
        bad = [x for x in r['recs'] if 'x' in x and x['x'].split('[')[0].lstrip('X') not in idle]
        if bad:
            chk.violation('unknown', 'unknown value in %s at %s' % (bad[0]['x'], bad[0]), brief(d))
            continue
        if not r['end']:
            chk.violation('completion', 'requests did not complete: %s' % feature(d), brief(d))
            continue
        traces.append(axi_trace(d, r))
        idx.append(d)
    res = validate(chk, 'AxiTrace', 'AxiTrace.cfg', traces, jobs=8)
    for (i, ok, line, clause, det) in res:
        if not ok:
            lo = max(0, line - 6)
            chk.violation('%s%s' % ('lite:' if idx[i].get('lite') else '', clause), 'record %d: %s' % (line, det),
                          dict(design=brief(idx[i]), records=traces[i]['recs'][lo:line + 2]))
    for t in traces[:2]:
        chk.sample(t['recs'][:6])
    chk.extra['designs'] = N
    chk.extra['cycles_with_traffic'] = sum(len(t['recs']) for t in traces)
    chk.assumptions = ['the slave is compliant: it answers every request in order after a bounded time']
    return chk.finish()


def verify_ops(rng, d):
    """Use the verification masters in some designs."""
    if not d.get('lite') and rng.random() < .25:
        d['cls'] = 'AXIMVerify'
    if d.get('cls', '').endswith('Verify'):
        for o in d['ops']:
            if o['op'] in ('read', 'write') and rng.random() < .6:
                o['delay'] = rng.choice((0, 1, 5, 20))
    return d


if __name__ == '__main__':
    sys.exit(main())
