"""C01: Seq.  Random and TLC-enumerated Seq descriptions are built with the real
library, simulated, and every register of every cycle checked against SeqSem."""
import vlib
from vlib import Check, drive, pmap
from veriloggen import Module, Seq
from seqlib import INS, gen_expr, gen_body, gen_prevs, fix_full, stimulus, Builder, full_dst


def gen_prog(rng, simple=False):
    nreg = rng.randint(1, 3)
    w = [rng.choice([1, 3, 4, 8]) for _ in range(nreg)]
    init = [rng.randint(0, 2 ** x - 1) for x in w]
    prevs = gen_prevs(rng, nreg)
    prog = []
    inchain = False
    for _ in range(rng.randint(2, 6)):
        kinds = ['plain', 'if', 'if', 'if']
        if inchain:
            kinds += ['elif', 'else', 'else', 'elif']
        k = rng.choice(kinds)
        inchain = k in ('if', 'elif')
        delay = rng.choice([0, 0, 0, 1, 2, 3])
        keep = rng.choice([0, 0, 0, 1, 2, 3])
        lazy = eager = 0
        if delay or keep:
            lazy, eager = int(rng.random() < 0.3), int(rng.random() < 0.4)
        prog.append(dict(kind=k, cond=gen_expr(rng, nreg, len(prevs), 1, True) if k in ('if', 'elif') else [],
                         delay=delay, keep=keep, lazy=lazy, eager=eager,
                         body=gen_body(rng, w, len(prevs), eager)))
    P = dict(w=w, init=init, prevs=prevs, prog=prog)
    opts = dict(as_module=False, split=0)
    if rng.random() < 0.15:
        opts['as_module'] = True
        for c in prog:
            fix_full(c['body'])
    elif rng.random() < 0.15:
        cuts = [k for k in range(1, len(prog)) if prog[k]['kind'] in ('plain', 'if')]
        if cuts:
            opts['split'] = rng.choice(cuts)
            for c in prog[opts['split']:]:
                c['eager'] = 0      # two Seq objects give equal names to captured values
    return P, opts


def gen_from_tlc(g):
    k1, a1, k2, a2 = g
    mk = lambda k, a, c, rhs: dict(kind=k, cond=c if k in ('if', 'elif') else [], body=[
        dict(sel='all', dst=1, rhs=rhs)], **a)
    return dict(w=[4], init=[9], prevs=[], prog=[
        mk(k1, a1, ['in', 1], ['in', 4]), mk(k2, a2, ['in', 2], ['^', ['in', 4], ['c', 7]])]), \
        dict(as_module=False, split=0)


# ---------------------------------------------------------------- real design
def build(m, clk, rst, ins, pid, P, opts):
    name = 's%d' % pid
    regs = [m.Reg('x%d_%d' % (pid, k), w, initval=P['init'][k]) for k, w in enumerate(P['w'])]
    outs = []
    for k, r in enumerate(regs):
        o = m.Output('o%d_%d' % (pid, k), P['w'][k])
        o.assign(r)
        outs.append((o.name, P['w'][k]))
    main = seq = Seq(m, name, clk, rst, as_module=opts['as_module'])
    # registers never assigned as a whole get their reset from add_reset()
    for d in sorted(set(range(1, len(regs) + 1)) - full_dst(P['prog'])):
        seq.add_reset(regs[d - 1])
    bld = Builder(P, pid, ins, regs, main)
    for k, c in enumerate(P['prog']):
        if opts['split'] and k == opts['split']:
            seq = Seq(m, name + 'b', clk, rst)
        bld.attrs(seq, c)(*bld.body(c))
    if opts['split']:
        main.update(seq)
    return outs


def make(progs):
    m = Module('top')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    ins = [m.Input(n, w) for n, w in INS]
    outs, errs = [], {}
    for pid, (P, opts) in enumerate(progs):
        outs.append(build(m, clk, rst, ins, pid, P, opts))
    return m.to_verilog(), outs


def run_batch(a):
    progs, stim = a
    v, outs = make(progs)
    flat = [o for x in outs for o in x]
    rows = drive(v, 'top', [('RST', 1)] + INS, flat, stim)
    traces, k = [], 0
    for (P, opts), o in zip(progs, outs):
        ev = []
        for s, r in zip(stim, rows):
            ev.append(dict(rst=s[0], i=s[1:], r=[-1 if x is None else x for x in r[k:k + len(o)]]))
        traces.append(dict(p=P, ev=ev))
        k += len(o)
    return traces


def key(P, opts, cl):
    at = []
    for c in P['prog']:
        at.append('%s.%d.%d.%d.%d' % (c['kind'], c['delay'], c['keep'], c['lazy'], c['eager']))
    return 'seq:%s:mod%d:upd%d:prev%d:%s' % ('/'.join(at), opts['as_module'], bool(opts['split']),
                                            len(P['prevs']), cl)


def main():
    chk = Check('C01')
    chk.assumptions = ['iverilog executes the emitted Verilog faithfully',
                       'EagerVal of nested if-statements and Prev of sums are outside the generated programs']
    for c in ('00', '10', '01', '11'):
        vlib.model_check(chk, 'SeqMC', 'SeqMC_%s.cfg' % c)
    gen = vlib.tlc_print('SeqGen', 'SeqGen.cfg', 'GEN', chk=chk)
    rng = chk.rng
    progs = [gen_from_tlc(g) for g in (rng.sample(gen, 480) if chk.quick() else gen)]
    progs += [gen_prog(rng) for _ in range(chk.n(480, 6000))]
    batches = [progs[i:i + 20] for i in range(0, len(progs), 20)]
    jobs = [(b, stimulus(rng, chk.n(45, 70))) for b in batches]
    traces, meta, redo = [], [], []
    for a, r in zip(jobs, pmap(run_batch, jobs)):
        if r[0] == 'ok':
            traces += r[1]
            meta += a[0]
        else:       # isolate the failing description
            redo += [([p], a[1]) for p in a[0]]
    for a, r in zip(redo, pmap(run_batch, redo)):
        if r[0] == 'ok':
            traces += r[1]
            meta += a[0]
        else:
            P, opts = a[0][0]
            chk.violation(key(P, opts, r[0]), r[1], dict(prog=P, opts=opts, err=list(r)))
    for i, ok, line, cl, det in vlib.validate(chk, 'SeqTrace', 'SeqTrace.cfg', traces, jobs=8):
        if not ok:
            P, opts = meta[i]
            chk.violation(key(P, opts, cl), 'cycle %d: registers (set, expected, got) %s' % (line, det),
                          dict(prog=P, opts=opts, events=traces[i]['ev'][max(0, line - 8):line + 1]))
    chk.extra['programs'] = len(progs)
    if traces:
        chk.sample(dict(prog=meta[-1][0], first_cycles=traces[-1]['ev'][:4]))
    return chk.finish()


vlib.main(main)
