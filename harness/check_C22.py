"""C22: pipelined multipliers, multiply-adders and dividers against Pipe.tla."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


def operand(rng, w):
    c = rng.random()
    m = (1 << w) - 1
    if c < .2:
        return rng.choice((0, 1, m, 1 << (w - 1), (1 << (w - 1)) - 1, 2 & m, m - 1 if m > 1 else 1))
    if c < .5:
        return rng.getrandbits(rng.randrange(1, w + 1))
    if c < .65:
        return -rng.getrandbits(rng.randrange(1, w + 1)) & m
    return rng.getrandbits(w)


def gen(rng, k):
    unit = ('Multiplier', 'mkMultiplier', 's_mul', 'madd', 's_div', 'd_mul', 'd_div')[k % 7]
    wide = rng.random() < .25
    W = lambda: rng.choice((1, 2, 3, 4, 5, 7, 8)) if not wide else rng.choice((9, 12, 16, 17, 31, 32, 33))
    sg = lambda: rng.random() < .5
    d = dict(unit=unit, wl=W(), wr=W(), wc=W(), sl=sg(), sr=sg(), sc=sg(), D=rng.choice((2, 3, 4, 6, 6, 8)),
             upd=True, en=False, kind='mul')
    if unit in ('Multiplier', 'mkMultiplier'):
        d['upd'], d['en'] = rng.random() < .6, rng.random() < .6
    elif unit == 'madd':
        d['kind'] = 'madd'
        d['wc'] = rng.choice((d['wc'], d['wl'] + d['wr'], d['wl'] + d['wr'] + 3))
    elif unit == 'd_mul':
        d['en'] = True
    elif unit in ('s_div', 'd_div'):
        d['kind'] = 'div'
        d['en'] = True
        if unit == 'd_div':
            d['sl'] = True
        d['sr'] = d['sl']
        d['wl'] = max(2, d['wl'])
        d['wr'] = d['wl']
        d['D'] = d['wl'] + 2
    # operand stream
    wl, wr = d['wl'], d['wr']
    if wl + wr <= 6 and rng.random() < .7:
        ops = [(a, b) for a in range(1 << wl) for b in range(1 << wr)]
        rng.shuffle(ops)
    else:
        ops = [(operand(rng, wl), operand(rng, wr)) for _ in range(16 if wide else 40)]
    pu, pe = rng.choice((1, 1, .7, .3)), rng.choice((1, .8, .4))
    rows = [[1, rng.randrange(2), rng.randrange(2), 0, 0, 0] for _ in range(2)]
    if not d['en'] and not d['upd']:
        pu = 1
    i = 0
    while i < len(ops):
        u, e = int(rng.random() < pu or not d['upd']), int(rng.random() < pe)
        r = int(rng.random() < .006)
        a, b = ops[i] if rng.random() < .95 else (operand(rng, wl), operand(rng, wr))
        rows.append([r, u, e, a, b, operand(rng, d['wc'])])
        if u and e and not r:
            i += 1
    for _ in range(d['D'] + 2):
        rows.append([0, 1, 0, 0, 1, 0])
    d['rows'] = rows
    return d


def build(d):
    """Verilog text, port names."""
    import veriloggen as vg
    u, D = d['unit'], d['D']
    P = dict(rst='RST', upd='update', en='enable', valid='valid', a='a', b='b', outs=['c'])
    if u == 'Multiplier':
        from veriloggen.types.mul import Multiplier
        m = vg.Module('top')
        clk, rst = m.Input('CLK'), m.Input('RST')
        a, b = m.Input('a', d['wl'], signed=d['sl']), m.Input('b', d['wr'], signed=d['sr'])
        c = m.Output('c', d['wl'] + d['wr'])
        kw = {}
        if d['upd']:
            kw['update'] = m.Input('update')
        if d['en']:
            kw['enable'] = m.Input('enable')
        if D != 6:
            kw['depth'] = D
        if not (d['sl'] and d['wl'] > 3):
            kw['lsigned'] = d['sl']
        kw['rsigned'] = d['sr']
        mul = Multiplier(m, 'mul', clk, rst, a, b, **kw)
        c.assign(mul.value)
        if d['en']:
            m.Output('valid').assign(mul.valid)
    elif u == 'mkMultiplier':
        from veriloggen.types.mul import mkMultiplier
        x = mkMultiplier('mulx', d['sl'], d['sr'], D, with_update=d['upd'], with_enable=d['en'])
        m = vg.Module('top')
        ports = [('CLK', m.Input('CLK')), ('RST', m.Input('RST'))]
        if d['upd']:
            ports.append(('update', m.Input('update')))
        if d['en']:
            ports.append(('enable', m.Input('enable')))
            ports.append(('valid', m.Output('valid')))
        ports += [('a', m.Input('a', d['wl'])), ('b', m.Input('b', d['wr'])), ('c', m.Output('c', d['wl'] + d['wr']))]
        m.Instance(x, 'inst', params=[('lwidth', d['wl']), ('rwidth', d['wr'])], ports=ports)
    elif u == 's_mul':
        import veriloggen.stream.mul as mul
        m = mul.mkMultiplier(0, d['wl'], d['wr'], d['sl'], d['sr'], D)
        P['rst'] = None
    elif u == 'd_mul':
        import veriloggen.dataflow.mul as mul
        m = mul.mkMultiplier(0, d['wl'], d['wr'], d['sl'], d['sr'], D)
    elif u == 'madd':
        import veriloggen.stream.madd as madd
        m = madd.mkMadd(0, d['wl'], d['wr'], d['wc'], d['sl'], d['sr'], d['sc'], D)
        P.update(rst=None, c='c', outs=['d'])
    else:
        if u == 's_div':
            import veriloggen.stream.div as div
            params = [('W_D', d['wl']), ('A_SIGNED', int(d['sl'])), ('B_SIGNED', int(d['sl'])), ('O_SIGNED', int(d['sl']))]
        else:
            import veriloggen.dataflow.div as div
            params = [('W_D', d['wl'])]
        m = vg.Module('top')
        w = d['wl']
        ports = [('CLK', m.Input('CLK')), ('RST', m.Input('RST')), ('in_a', m.Input('a', w)), ('in_b', m.Input('b', w)),
                 ('update', m.Input('update')), ('enable', m.Input('enable')), ('rslt', m.Output('rslt', w)),
                 ('mod', m.Output('mod', w)), ('valid', m.Output('valid'))]
        m.Instance(div.get_div(), 'inst', params=params, ports=ports)
        P['outs'] = ['rslt', 'mod']
    return m.to_verilog(), m.name, P


def vec(x, w):
    return [(x >> i) & 1 for i in range(w)]


def run(d):
    v, top, P = build(d)
    wo = dict(mul=d['wl'] + d['wr'], madd=max(d['wl'] + d['wr'], d['wc']), div=d['wl'])[d['kind']]
    ins, col = [], []
    for n, w, on, c in ((P['rst'], 1, P['rst'], 0), (P['upd'], 1, d['upd'], 1), (P['en'], 1, d['en'], 2), (P['a'], d['wl'], True, 3),
                        (P['b'], d['wr'], True, 4), (P.get('c'), d['wc'], d['kind'] == 'madd', 5)):
        if on:
            ins.append((n, w))
            col.append(c)
    outs = ([(P['valid'], 1)] if d['en'] else []) + [(n, wo) for n in P['outs']]
    rows = drive(v, top, ins, outs, [[r[c] for c in col] for r in d['rows']])
    ev = []
    for s, r in zip(d['rows'], rows):
        val = -1
        if d['en']:
            val = 2 if r[0] is None else r[0]
            r = r[1:]
        rst = s[0] if P['rst'] else 0
        ev.append([rst, s[1] if d['upd'] else 1, s[2] if d['en'] else 0, vec(s[3], d['wl']), vec(s[4], d['wr']), vec(s[5], d['wc']), val,
                   [[2] if x is None else vec(x, wo) for x in r]])
    op = {k: d[k] for k in ('kind', 'wl', 'wr', 'wc', 'sl', 'sr', 'sc')}
    return dict(op=op, D=d['D'], warm=1, ev=ev)


def main():
    chk = Check('C22')
    for c in ('PipeMC', 'PipeMC_4u', 'PipeMC_4s'):
        model_check(chk, 'PipeMC', c + '.cfg')
    N = chk.n(320, 5000)
    D = [gen(chk.rng, k) for k in range(N)]
    T, I = [], []
    for d, r in zip(D, pmap(run, D)):
        if r[0] != 'ok':
            chk.violation(d['unit'] + ':' + r[0], r[1], dict(design=d, error=r[1:]))
        else:
            T.append(r[1])
            I.append(d)
    for (i, ok, line, clause, det) in validate(chk, 'PipeTrace', 'PipeTrace.cfg', T, jobs=8):
        if not ok:
            d = {k: v for k, v in I[i].items() if k != 'rows'}
            chk.violation(I[i]['unit'] + ':' + clause, '%s cycle %d: %s' % (d, line, det), dict(design=I[i], cycle=line))
    chk.extra.update(designs=N, cycles=sum(len(t['ev']) for t in T), operations=sum(sum(e[1] for e in t['ev']) for t in T))
    chk.sample({k: v for k, v in D[0].items() if k != 'rows'})
    chk.assumptions = ['division by zero has no defined result', 'both operands of a divider have the same sign attribute']
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
