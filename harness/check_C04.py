"""C04: child threads and thread pools: recorded run/join/done/reset/ret histories
are validated against ThreadCtl (ThreadCtlTrace)."""
import random
import vlib
from vlib import Check, simulate, load_src, pmap, SimError

K = 24


class Prog(object):
    """A random system of parents and children; text() is its Python source."""

    def __init__(self, k, rng):
        self.k, self.r = k, rng
        r = rng
        self.kids = []          # (object expression, tid or None) per child
        self.objs = []          # dict(name, pool, members=[child numbers], script)
        c = 0
        for o in range(r.choice([1, 1, 2, 2, 3])):
            n = r.choice([0, 0, 2, 3])
            ob = dict(name='t%d' % o, n=n, members=list(range(c, c + max(1, n))), two=r.random() < 0.6,
                      pad=r.choice(['0', '2', '9', 'a & 3', 'a & 15', 'b & 7']), script=None,
                      adopt=bool(n) and r.random() < 0.3, sub=r.random() < 0.15)
            self.objs.append(ob)
            c += max(1, n)
        self.nc = c
        self.P = [{'idle'} for _ in range(c)]     # possible phases, for choosing joins that return
        self.groups = []                          # static description per group id
        self.np = r.choice([1, 1, 2, 3])
        self.bodies = []
        # the last object may be driven by the first one, if that is a single thread
        nested = None
        if len(self.objs) > 1 and not self.objs[0]['n'] and r.random() < 0.4:
            nested = len(self.objs) - 1
        self.watch = list(range(c))
        owned = {}
        for o, ob in enumerate(self.objs):
            owned.setdefault(0 if nested != o and (self.np == 1 or r.random() < 0.6) else
                             (1 if nested != o else 'kid'), []).append(ob)
        self.seen = []          # objects with a run() compiled so far
        for p in range(self.np):
            self.bodies.append(self.script(p, owned.get(p, [])))
        if nested is not None:
            self.objs[0]['sub'] &= not self.objs[nested]['n']
            self.objs[0]['script'] = self.script(self.np, owned['kid'], once=True)
            self.np += 1

    # ---- scripts ----
    def phase(self, c, op):
        P = self.P[c]
        if op == 'run':
            if 'idle' in P:
                P.discard('idle')
                P.add('run')
        elif op == 'join':
            P.clear()
            P.add('done')
        elif op == 'reset':
            if 'done' in P:
                P.add('idle')
                if P == {'done', 'idle'}:
                    P.discard('done')
        if 'run' in P:
            P.add('done')

    def group(self, p, objs, ops, idx=None):
        """source lines of one group; idx = loop variable text for the thread id"""
        r = self.r
        g = len(self.groups)
        pre, body, res = [], [], []
        desc = []
        for op, ob, m in ops:
            n = ob['name']
            tid = '' if not ob['n'] else (idx or str(m))
            child = ('%s + %d' % (idx, ob['members'][0]) if idx and ob['n'] else str(ob['members'][m]))
            if op == 'run':
                a = r.choice(['%d' % r.randrange(-50, 100), 'v', 'v + 1', 'v * 3', '(v & 7)'])
                b = r.choice(['%d' % r.randrange(-50, 100), 'v', '-v'])
                if ob['two']:
                    f = r.choice(['%s, %s', '%s, b=%s', 'a=%s, b=%s', 'DEF'])
                    if ob['n'] and f.startswith('a='):
                        f = '%s, b=%s'
                    if f == 'DEF':
                        args, b = a, '5'
                    else:
                        args = f % (a, b)
                    vals = [a, b]
                else:
                    args, vals = a, [a]
                body.append('%s.run(%s)' % (n, ', '.join(x for x in (tid, args) if x)))
            else:
                vals = []
                call = '%s.%s(%s)' % (n, op, tid)
                if op in ('done', 'ret'):
                    body.append('r%d = %s' % (len(res), call))
                    res.append('r%d' % len(res))
                elif op == 'reset':
                    body += r.choice([[call], [call], ['if v < 1000000:', '  ' + call],
                                      ['if v > 1000000:', '  z = 1', 'else:', '  ' + call]])
                else:
                    body.append(call)
                if r.random() < 0.1 and op in ('done', 'join'):     # a reset that is not executed
                    call = '%s.reset(%s)' % (n, tid)
                    body += r.choice([['if v > 1000000:', '  ' + call],
                                      ['if v < 1000000:', '  z = 1', 'else:', '  ' + call]])
            desc.append((op, len(vals)))
            pre += [child] + vals
        self.groups.append(desc)
        fmt = lambda k, xs: "print('#%d %s %d %d %%d%s' %% (%s,))" % (
            self.k, k, p, g, ' %d' * len(xs), ', '.join(['cyc'] + xs))
        return [fmt('b', pre)] + body + [fmt('e', res)]

    def pads(self):
        r = self.r
        return r.choice([[], [], ['z = 0'] * r.randrange(4), ['for j in range(%d):' % r.randrange(1, 8), '  pass']])

    def script(self, p, objs, once=False):
        r = self.r
        out = ['v = %d' % r.randrange(1, 20)]
        res_tail = []
        n = 1 if once else r.choice([2, 4, 6, 8])
        for _ in range(n if objs else r.choice([2, 4])):
            out += self.pads()
            if r.random() < 0.4:
                out.append('v += %d' % r.randrange(1, 5))
            if not objs:        # an observer: done and join of any child
                if not self.seen:
                    continue
                ob = r.choice(self.seen)
                op = r.choice(['done', 'done', 'join'])
                out += self.group(p, objs, [(op, ob, r.randrange(max(1, ob['n'])))])
                continue
            ob = r.choice(objs)
            nm = max(1, ob['n'])
            new = ob not in self.seen and not once
            if new:             # the first operation compiled must be a run
                self.seen.append(ob)
                m = r.randrange(nm)
                out += self.group(p, objs, [('run', ob, m)])
                self.phase(ob['members'][m], 'run')
                continue
            if ob['n'] and (once or r.random() < 0.45):
                # fork/join over all members by a loop with a run time thread id
                hi = ob['n']
                for op in (['run', 'join', 'reset'] if once else r.choice([['run', 'join'], ['run', 'join', 'ret', 'reset'],
                                                                           ['reset', 'run', 'join', 'done']])):
                    if op in ('join', 'ret') and any('idle' in self.P[c] for c in ob['members']):
                        op = 'done'
                    if op == 'ret' and any(self.P[c] != {'done'} for c in ob['members']):
                        op = 'done'
                    if op == 'reset' and any('run' in self.P[c] for c in ob['members']):
                        op = 'done'
                    lines = self.group(p, objs, [(op, ob, 0)], idx='i')
                    out += ['for i in range(%d):' % hi] + ['  ' + x for x in lines]
                    for c in ob['members']:
                        self.phase(c, op)
                continue
            ops = []
            m = r.randrange(nm)
            if once:
                plan = [('run', m), ('join', m), ('ret', m), ('reset', m)]
            elif r.random() < 0.35:     # typical life cycles
                plan = r.choice([[('run', m), ('join', m), ('ret', m), ('reset', m)],
                                 [('run', m), ('join', m), ('reset', m), ('run', m), ('join', m)],
                                 [('reset', m), ('run', m)], [('run', m), ('run', m), ('join', m), ('done', m)],
                                 [('run', m), ('done', m), ('join', m), ('done', m), ('reset', m), ('done', m)]])
            else:
                plan = [(r.choice(['run', 'run', 'join', 'done', 'reset', 'ret']), r.randrange(nm))
                        for _ in range(r.choice([1, 1, 2, 3]))]
            cut = r.random() < 0.5
            for op, m in plan:
                c = ob['members'][m]
                if (op == 'join' and 'idle' in self.P[c]) or (op == 'ret' and self.P[c] != {'done'}):
                    op = 'done'
                if op == 'reset' and 'run' in self.P[c]:
                    op = 'done'     # only a thread that cannot be running is reset
                self.phase(c, op)
                ops.append((op, ob, m))
                if cut:
                    out += self.group(p, objs, ops)
                    ops = []
            if ops:
                out += self.group(p, objs, ops)
        if once:
            for ob in objs:     # leave everything startable for the next time
                for m in range(max(1, ob['n'])):
                    if self.P[ob['members'][m]] == {'done'}:
                        out += self.group(p, objs, [('reset', ob, m)])
                        self.phase(ob['members'][m], 'reset')
        return out

    def text(self):
        k = self.k
        L = ['from veriloggen import *', 'import veriloggen.thread as vthread', 'def mk():',
             "  m = Module('p%d'); clk = m.Input('CLK'); rst = m.Input('RST')" % k,
             "  cyc = m.Reg('cyc', 32, initval=0)",
             "  seq = Seq(m, 'cycseq', clk, rst)", '  seq(cyc.inc())',
             '  def who(fsm):', "    return int(fsm.name.split('_')[-1])"]
        for o, ob in enumerate(self.objs):
            a = 'a, b=5' if ob['two'] else 'a'
            pad = ob['pad'] if ob['two'] else ob['pad'].replace('b', 'a')
            L += ['  def f%d(%s):' % (o, a),
                  "    print('#%d S %%d %%d %s' %% (who(), cyc, %s,))" % (
                      k, '%d %d' if ob['two'] else '%d', 'a, b' if ob['two'] else 'a')]
            if ob['script']:
                L += ['    ' + x for x in ob['script']]
            L += ['    for j in range(%s):' % pad, '      pass']
            L += ['    r = a * 3%s' % (' + b' if ob['two'] else ' - 1'),
                  "    print('#%d E %%d %%d %%d' %% (who(), cyc, r,))" % k, '    return r']
        for o, ob in enumerate(self.objs):
            n = ob['name']
            sub = ', fsm_as_module=True' if ob['sub'] else ''
            # the last part of the FSM name is the number of the child
            th = lambda i: "vthread.Thread(m, 'k_%d', clk, rst, f%d%s)" % (ob['members'][i], o, sub)
            if not ob['n']:
                L.append('  %s = %s' % (n, th(0)))
            elif ob['adopt'] or ob['members'][0] != 0:
                L.append('  %s = vthread.to_thread_pool(%s)' % (n, ', '.join(th(i) for i in range(ob['n']))))
            else:
                L.append("  %s = vthread.ThreadPool(m, 'k', clk, rst, f%d, %d%s)" % (n, o, ob['n'], sub))
            L += ['  ths = %s.threads' % n if ob['n'] else '  ths = [%s]' % n,
                  '  for t in ths: t.add_intrinsics(who)']
        for p, b in enumerate(self.bodies):
            L += ['  def main%d():' % p] + ['    ' + x for x in b] + ['    pass']
        for p in range(len(self.bodies)):
            L += ["  vthread.Thread(m, 'p%d', clk, rst, main%d).start()" % (p, p)]
        return '\n'.join(L + ['  return m']) + '\n'


TB = """module tb; reg CLK, RST;
 initial begin CLK = 0; forever #5 CLK = !CLK; end
 initial begin RST = 0; #23 RST = 1; #40 RST = 0; end
 initial begin #%d $finish; end
%s
endmodule
"""
CYC = 2500


def num(x):
    return int(x) if x.lstrip('-').isdigit() else -99999999


def run_bundle(jobs):
    import veriloggen
    res, vs, progs = {}, [], {}
    for k, seed in jobs:
        p = progs[k] = Prog(k, random.Random(seed))
        try:
            veriloggen.reset()
            vs.append((k, load_src(p.text()).mk().to_verilog()))
        except Exception as e:
            res[k] = ('exc', '%s: %s' % (type(e).__name__, e))

    def sim(items):
        inst = '\n'.join(' p%d u%d(.CLK(CLK), .RST(RST));' % (k, k) for k, _ in items)
        return simulate([v for _, v in items] + [TB % (CYC * 10, inst)])
    lines = []
    if vs:
        try:
            lines = sim(vs)
        except SimError:
            for it in vs:
                try:
                    lines += sim([it])
                except SimError as e:
                    res[it[0]] = ('sim', str(e))
    evs = {k: [] for k, _ in jobs}
    for s in lines:
        if not s.startswith('#'):
            continue
        f = s[1:].split()
        k, kind, x = int(f[0]), f[1], int(f[2])
        n = [num(y) for y in f[3:]]
        if kind in 'SE':
            evs[k].append([n[0], kind, x + 1, [], n[1:]])
        elif kind == 'b':
            ops, q = [], 2
            for op, na in progs[k].groups[n[0]]:
                ops.append([op, n[q] + 1, n[q + 1:q + 1 + na]])
                q += 1 + na
            evs[k].append([n[1], 'b', x + 1, ops, []])
        else:
            evs[k].append([n[1], 'e', x + 1, [], n[2:]])
    order = {'b': 0, 'S': 1, 'E': 1, 'e': 2}
    for k, seed in jobs:
        if k in res:
            continue
        ev = sorted(evs[k], key=lambda e: (e[0], order[e[1]]))
        ev.append([CYC - 10, 'Z', 0, [], []])
        res[k] = ('ok', dict(nc=progs[k].nc, np=progs[k].np, K=K, ev=ev))
    return res


def main():
    chk = Check('C04')
    chk.assumptions = ['a child is requested by one thread at a time (two run() of one child in the same cycle are excluded)']
    vlib.model_check(chk, 'ThreadCtlMC', 'ThreadCtlMC.cfg')
    vlib.model_check(chk, 'ThreadCtlMC', 'ThreadCtlMC_c2.cfg')
    if not chk.quick():
        vlib.model_check(chk, 'ThreadCtlMC', 'ThreadCtlMC_full.cfg', timeout=1500)
    rng = chk.rng
    jobs = [(k, rng.randrange(2 ** 40)) for k in range(chk.n(400, 6000))]
    bs = [jobs[i:i + 10] for i in range(0, len(jobs), 10)]
    res = {}
    for b, r in zip(bs, pmap(run_bundle, bs, chunksize=1)):
        if r[0] != 'ok':
            raise vlib.MachineryError(str(r))
        res.update(r[1])
    traces, meta = [], []
    for k, seed in jobs:
        r = res[k]
        if r[0] != 'ok':
            chk.violation('system:%s' % r[0], r[1], dict(source=Prog(k, random.Random(seed)).text(), err=r[1]))
        else:
            traces.append(r[1])
            meta.append((k, seed))
    for i, ok, line, cl, det in vlib.validate(chk, 'ThreadCtlTrace', 'ThreadCtlTrace.cfg', traces, jobs=8):
        if not ok:
            k, seed = meta[i]
            chk.violation('system:history:%s' % cl, 'event %d: %s' % (line, det),
                          dict(source=Prog(k, random.Random(seed)).text(), events=traces[i]['ev']))
    chk.extra['operations'] = sum(len(e[3]) for t in traces for e in t['ev'])
    chk.extra['child_runs'] = sum(e[1] == 'S' for t in traces for e in t['ev'])
    if traces:
        chk.sample(dict(events=traces[0]['ev'][:20]))
    return chk.finish()


vlib.main(main)
