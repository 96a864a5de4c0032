"""C02: FSM.  Random machines, each built in one of the available ways (case, if,
separate module), simulated and checked cycle by cycle against FsmSem."""
import vlib
from vlib import Check, drive, pmap
from veriloggen import Module, FSM
from seqlib import INS, gen_expr, gen_body, gen_prevs, fix_full, stimulus, Builder, full_dst


def call(st, kind, cond, body=(), delay=0, keep=0, lazy=0, eager=0, jump=-1, els=-1, via='', cur=1):
    return dict(st=st, kind=kind, cond=cond, delay=delay, keep=keep, lazy=lazy, eager=eager,
                body=list(body), jump=jump, els=els, via=via, cur=cur)


def gen_prog(rng):
    nreg = rng.randint(1, 3)
    w = [rng.choice([1, 3, 4, 8]) for _ in range(nreg)]
    init = [rng.randint(0, 2 ** x - 1) for x in w]
    prevs = gen_prevs(rng, nreg) if rng.random() < 0.4 else []
    npv = len(prevs)
    S = rng.randint(2, 5)
    cond = lambda: gen_expr(rng, nreg, npv, 1, True)

    def body_call(st, kind, cur):
        delay = rng.choice([0, 0, 0, 1, 2, 3])
        keep = rng.choice([0, 0, 0, 1, 2])
        lazy = eager = 0
        if delay or keep:
            lazy, eager = int(rng.random() < 0.3), int(rng.random() < 0.4)
        return call(st, kind, cond() if kind in ('if', 'elif') else [],
                    gen_body(rng, w, npv, eager), delay, keep, lazy, eager, cur=cur)

    def seg(st, n, cur):
        """A run of calls of one state; chains mix bodies and jumps."""
        out, chain = [], False
        for _ in range(n):
            kind = rng.choice(['plain', 'if', 'if'] + (['elif', 'else', 'else'] if chain else []))
            if rng.random() < 0.3:
                dst = rng.randint(0, S - 1)
                r = rng.random()
                if kind in ('plain', 'if') and r < 0.25 and cur:
                    # explicit condition arguments; not part of any chain
                    c = call(st, 'if' if rng.random() < 0.8 else 'plain', [], jump=dst,
                             via=rng.choice(['goto_arg', 'goto_from']))
                    if c['kind'] == 'if':
                        c['cond'] = cond()
                        if rng.random() < 0.5:
                            c['els'] = rng.randint(0, S - 1)
                    out.append(c)
                    chain = False
                    continue
                via = 'goto_init' if dst == 0 and r < 0.7 else 'goto'
                out.append(call(st, kind, cond() if kind in ('if', 'elif') else [], jump=dst,
                                via=via, cur=cur))
            else:
                out.append(body_call(st, kind, cur))
            chain = kind in ('if', 'elif')
        return out, chain

    prog, alw = [], []
    for st in range(S):
        o, chain = seg(st, rng.choice([0, 1, 1, 2, 3]), 1)
        prog += o
        if st < S - 1:
            r = rng.random()
            if r < 0.1:
                prog.append(call(st, 'plain', [], via='inc'))
            elif r < 0.25:      # a jump of another state, which also opens the next state
                k = rng.randint(0, S - 2)
                kind = rng.choice(['plain', 'if'])
                prog.append(call(k, kind, cond() if kind == 'if' else [], jump=k + 1, via='goto_next', cur=0))
            else:
                kind = rng.choice(['plain', 'if'] + (['else', 'elif', 'else'] if chain else []))
                prog.append(call(st, kind, cond() if kind in ('if', 'elif') else [], jump=st + 1,
                                 via='goto_next'))
        else:
            prog.append(call(st, 'plain', [], jump=rng.randint(0, S - 1), via='goto'))
    for _ in range(rng.choice([0, 0, 1, 2])):
        o, _c = seg(rng.randint(0, S - 1), rng.choice([1, 2, 3]), 0)
        prog += o
    # last jumps that keep the machine moving are left to chance: no fairness is needed
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 2)):
            c = body_call(0, rng.choice(['plain', 'if']), 1)
            if c['kind'] == 'if' and rng.random() < 0.5:
                c['cond'] = ['&&', c['cond'], ['st', rng.randint(0, S - 1)]]
            alw.append(c)
    P = dict(w=w, init=init, prevs=prevs, prog=prog, alw=alw)
    mode = rng.choice(['case', 'case', 'if', 'module'])
    if mode == 'module':
        for c in prog + alw:
            fix_full(c['body'])
    return P, dict(mode=mode, when=rng.choice(['when', 'state']))


def build(m, clk, rst, ins, pid, P, opts):
    regs = [m.Reg('x%d_%d' % (pid, k), w, initval=P['init'][k]) for k, w in enumerate(P['w'])]
    outs = []
    fsm = FSM(m, 'f%d' % pid, clk, rst, as_module=opts['mode'] == 'module')
    so = m.Output('os%d' % pid, 32)
    so.assign(fsm.state)
    outs.append((so.name, 32))
    for k, r in enumerate(regs):
        o = m.Output('o%d_%d' % (pid, k), P['w'][k])
        o.assign(r)
        outs.append((o.name, P['w'][k]))
    for d in sorted(set(range(1, len(regs) + 1)) - full_dst(P['prog'] + P['alw'])):
        fsm.add_reset(regs[d - 1])
    b = Builder(P, pid, ins, regs, fsm, fsm.state)
    half = len(P['alw']) // 2

    def always(cs):
        for c in cs:
            b.attrs(fsm.Always, c)(*b.body(c))
    always(P['alw'][:half])
    for c in P['prog']:
        if c['cur']:
            f = fsm
        elif opts['when'] == 'when':
            f = fsm.When(c['st'])
        else:
            f = fsm.State(c['st'])
        via = c['via']
        if via == 'inc':
            fsm.inc()
        elif via in ('goto_arg', 'goto_from'):
            kw = {}
            if c['kind'] == 'if':
                kw['cond'] = b.ev(c['cond'])
            if c['els'] >= 0:
                kw['else_dst'] = c['els']
            if via == 'goto_arg':
                f.goto(c['jump'], **kw)
            else:
                f.goto_from(c['st'], c['jump'], **kw)
        elif via == 'goto':
            b.attrs(f, c).goto(c['jump'])
        elif via == 'goto_init':
            b.attrs(f, c).goto_init()
        elif via == 'goto_next':
            b.attrs(f, c).goto_next()
        else:
            b.attrs(f, c)(*b.body(c))
    always(P['alw'][half:])
    if opts['mode'] == 'if':
        fsm.make_always(case=False)
    return outs


def run_batch(a):
    progs, stim = a
    m = Module('top')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    ins = [m.Input(n, w) for n, w in INS]
    outs = [build(m, clk, rst, ins, pid, P, o) for pid, (P, o) in enumerate(progs)]
    flat = [o for x in outs for o in x]
    rows = drive(m.to_verilog(), 'top', [('RST', 1)] + INS, flat, stim)
    traces, k = [], 0
    for (P, opts), o in zip(progs, outs):
        ev = []
        for s, r in zip(stim, rows):
            x = [-1 if v is None else v for v in r[k:k + len(o)]]
            ev.append(dict(rst=s[0], i=s[1:], s=x[0], r=x[1:]))
        traces.append(dict(p=P, ev=ev))
        k += len(o)
    return traces


def key(P, opts, cl):
    at = ['%d:%s.%d.%d.%d.%d%s' % (c['st'], c['kind'], c['delay'], c['keep'], c['lazy'], c['eager'],
                                   ('>' + c['via'] if c['via'] else '')) for c in P['prog']]
    return 'fsm:%s:%s:prev%d:alw%d:%s' % (opts['mode'], '/'.join(at), len(P['prevs']), len(P['alw']), cl)


def main():
    chk = Check('C02')
    chk.assumptions = ['iverilog executes the emitted Verilog faithfully']
    for c in ('00', '10', '01', '11'):
        vlib.model_check(chk, 'FsmMC', 'FsmMC_%s.cfg' % c)
    rng = chk.rng
    progs = [gen_prog(rng) for _ in range(chk.n(700, 8000))]
    batches = [progs[i:i + 14] for i in range(0, len(progs), 14)]
    jobs = [(b, stimulus(rng, chk.n(70, 120))) for b in batches]
    traces, meta, redo = [], [], []
    for a, r in zip(jobs, pmap(run_batch, jobs)):
        if r[0] == 'ok':
            traces += r[1]
            meta += a[0]
        else:
            redo += [([p], a[1]) for p in a[0]]
    for a, r in zip(redo, pmap(run_batch, redo)):
        if r[0] == 'ok':
            traces += r[1]
            meta += a[0]
        else:
            P, opts = a[0][0]
            chk.violation(key(P, opts, r[0]), r[1], dict(prog=P, opts=opts, err=list(r)))
    for i, ok, line, cl, det in vlib.validate(chk, 'FsmTrace', 'FsmTrace.cfg', traces, jobs=8):
        if not ok:
            P, opts = meta[i]
            chk.violation(key(P, opts, cl), 'cycle %d: (state, expected, got) %s' % (line, det),
                          dict(prog=P, opts=opts, events=traces[i]['ev'][max(0, line - 8):line + 1]))
    visited = sum(len(set(e['s'] for e in t['ev'])) for t in traces)
    chk.extra['machines'] = len(progs)
    chk.extra['states_visited'] = visited
    if traces:
        chk.sample(dict(prog=meta[0][0], first_cycles=traces[0]['ev'][:4]))
    return chk.finish()


vlib.main(main)
