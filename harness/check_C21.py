"""C21: names of a module.  Random histories of definitions, copies, temporaries
and look-ups against Names.tla; the emitted text must elaborate."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

PORTS = ('Input', 'Output', 'Inout')
VARS = ('Wire', 'Reg', 'Integer', 'Real', 'Genvar')


def gen(rng, k):
    """A history of abstract operations; scope numbers are resolved when run."""
    pre = rng.choice(('_tmp', '_tmp', 't', 'x'))
    names = ['a', 'b', 'c', 'x', pre + '_0', pre + '_1', pre + '_2', 'p_0', 'p_1', 'x_0', 'lab_a', 'a_q']
    rng.shuffle(names)
    names = names[:rng.randrange(3, 9)]
    ops = []
    for _ in range(rng.randrange(8, 30)):
        c = rng.random()
        s, n = rng.randrange(4) if rng.random() < .45 else 0, rng.choice(names)
        if c < .5:
            kind = rng.choice(PORTS + ('OutputReg',) + VARS + ('Wire', 'Reg', 'Output', 'Parameter', 'Localparam', 'Function', 'Task', 'Instance'))
            ops.append(['def', s, n, kind, rng.randrange(4)])
        elif c < .65:
            ops.append(['tmp', s, rng.choice(('Wire', 'Reg', 'Integer', 'Real', 'Genvar', 'Localparam', 'Wire', 'Reg', 'Probe')),
                        rng.choice((None, None, None, 'p', 'x')), rng.randrange(3)])
        elif c < .77:
            ops.append(['copy', s, n, rng.choice(('ports', 'ports', 'vars', 'params', 'localparams', 'params_as_localparams', 'ports_as_vars',
                                                  'sim_ports', 'function', 'task')), rng.choice(PORTS), rng.choice(('Wire', 'Reg')),
                        rng.choice((None, 'lab_', '')), rng.choice((None, '_q', ''))])
        elif c < .87:
            ops.append(['scope', s, n if rng.random() < .7 else None, rng.choice(('for', 'if', 'else'))])
        else:
            ops.append(['find', s, n])
    # a copied port replaces a port of exactly its own type
    if any(o[0] == 'copy' and o[3] == 'ports' for o in ops):
        for o in ops:
            if o[0] == 'def' and o[3] in PORTS and o[4] == 3:
                o[4] = 0
    return dict(ops=ops, prefix=pre, names=sorted(set(names)), default=pre == '_tmp' and rng.random() < .7)


def define(vg, m, o, sub):
    """-> object defined"""
    _, _, n, kind, var = o
    from veriloggen.types import fixed
    src = vg.Module('src')
    r = src.Reg(n, 8, initval=0)
    if kind in ('Function', 'Task'):
        if kind == 'Function':
            f = m.Function(n, 4)
            i = f.Input('fi', 4)
            f.Body(f(i))
        else:
            f = m.Task(n)
            i = f.Input('fi', 4)
            f.Body(vg.Display('x'))
        return f
    if kind == 'Instance':
        return m.Instance(sub, n)
    if kind in ('Parameter', 'Localparam'):
        if var == 1:
            return getattr(m, kind + 'Like')(src.Localparam('lp', 3), name=n)
        return getattr(m, kind)(n, 3)
    if kind in ('Integer', 'Real', 'Genvar'):
        if var == 1:
            return getattr(m, kind + 'Like')(getattr(src, kind)('zz'), name=n)
        return getattr(m, kind)(n)
    if var == 1:
        return getattr(m, kind + 'Like')(r)
    if var == 2:
        return getattr(m, kind + 'Like')(src.Wire('zz', 3), name=n)
    if var == 3 and hasattr(fixed, 'Fixed' + kind):
        x = getattr(fixed, 'Fixed' + kind)(m, n, 8, 2)
        return x
    return getattr(m, kind)(n, 4)


def run(d):
    import veriloggen as vg
    from veriloggen.core import module as mod, function, task
    top = vg.Module('top') if d['default'] else vg.Module('top', tmp_prefix=d['prefix'])
    sub = vg.Module('sub')
    scopes = [top]
    ev, ids, keep = [], {}, []

    def ob(x):
        if x is None:
            return 0
        return ids.get(id(x), -1)

    def reg(x, k, m, name, kind):
        keep.append(x)
        ids[id(x)] = k
        if kind == 'OutputReg':
            p = m.get_ports()[name]
            keep.append(p)
            ids[id(p)] = k

    def text():
        return top.to_verilog()

    base = text()
    k = 0
    for o in d['ops']:
        si = o[1] % len(scopes)
        m = scopes[si]
        k += 1
        if o[0] == 'def':
            _, _, n, kind, var = o
            if m is not top and (kind in PORTS or kind in ('OutputReg', 'Parameter')):
                continue
            if m is top and var == 3 and kind == 'Instance' and n in ('a', 'b'):
                var = 0
            try:
                x = define(vg, m, o, sub)
                ok = 1
            except ValueError:
                ok = 0
            t = text()
            if ok:
                reg(x, k, m, n, kind)
            ev.append(['def', si + 1, n, kind, 0, ok, k, int(t == base)])
            base = t
        elif o[0] == 'tmp':
            kind = o[2]
            try:
                if kind == 'Probe':
                    x = m.Probe(vg.Int(3, width=4), **({} if o[3] is None else dict(prefix=o[3])))
                    kind = 'Wire'
                else:
                    kw = {} if o[3] is None else dict(prefix=o[3])
                    src = vg.Module('src')
                    if o[4] == 1 and kind in ('Wire', 'Reg'):
                        x = getattr(m, 'Tmp%sLike' % kind)(src.Wire('zz', 4), **kw)
                    elif kind == 'Localparam':
                        x = m.TmpLocalparam(3, **kw)
                    elif kind in ('Wire', 'Reg'):
                        x = getattr(m, 'Tmp' + kind)(4, **kw)
                    else:
                        x = getattr(m, 'Tmp' + kind)(**kw)
                reg(x, k, m, x.name, kind)
                ev.append(['tmp', si + 1, x.name, kind, 1, k])
            except ValueError as e:
                ev.append(['tmp', si + 1, str(e), kind, 0, k])
            base = text()
        elif o[0] == 'copy':
            _, _, n, what, pk, vk, pre, post = o
            src = vg.Module('src')
            other = 'zz'
            if m is not top and what in ('ports', 'params'):
                continue
            name = (pre or '') + n + (post or '')
            kw = dict(prefix=pre, postfix=post)
            if what in ('function', 'task'):
                name = n
                f = function.Function(n, 4) if what == 'function' else task.Task(n)
                i = f.Input('fi', 4)
                f.Body(f(i) if what == 'function' else vg.Display('x'))
                call = lambda: {n: getattr(m, 'add_' + what)(f)}
                kind = what.capitalize()
            elif what == 'ports':
                getattr(src, pk)(n, 4)
                src.Input(other)
                kind = pk
                call = lambda: m.copy_ports(src, exclude=[other], use_fullmatch=True, **kw)
            elif what == 'vars':
                getattr(src, vk)(n, 4)
                src.Reg(other)
                kind = vk
                call = lambda: m.copy_vars(src, include=[n], use_fullmatch=True, **kw)
            elif what in ('params', 'params_as_localparams'):
                src.Parameter(other, 1)
                src.Parameter(n, 3)
                kind = 'Parameter' if what == 'params' else 'Localparam'
                call = lambda: getattr(m, 'copy_' + what)(src, include=[n], use_fullmatch=True, **kw)
            elif what == 'localparams':
                src.Localparam(n, 3)
                kind = 'Localparam'
                call = lambda: m.copy_localparams(src, **kw)
            else:
                getattr(src, pk)(n, 4)
                w = vk == 'Wire'
                kind = 'Wire' if pk != 'Input' or w else 'Reg'
                call = lambda: getattr(m, 'copy_' + what)(src, use_wire=w, **kw)
            try:
                r = call()
                ok = 1
            except ValueError:
                ok = 0
            t = text()
            if ok:
                x = list(r.values())
                if len(x) != 1 or x[0].name != name:
                    raise AssertionError('copy returned %s' % list(r))
                reg(x[0], k, m, name, kind)
            ev.append(['def', si + 1, name, kind, 1, ok, k, int(t == base)])
            base = t
        elif o[0] == 'scope':
            _, _, n, kind = o
            if len(scopes) > 4:
                continue
            try:
                if kind == 'for':
                    i = m.TmpGenvar(prefix='gi_%d' % k)
                    ev.append(['tmp', si + 1, i.name, 'Genvar', 1, -1])
                    base = text()
                    x = m.GenerateFor(i(0), i < 2, i(i + 1), n)
                else:
                    x = m.GenerateIf(vg.Int(1) == 1, None if kind == 'else' else n)
                    if kind == 'else':
                        # the scope of the other branch is not used
                        if n is not None:
                            base = text()
                            y = x.Else(n)
                            x = y
                        else:
                            x = x.Else
                ok = 1
            except ValueError:
                ok = 0
            t = text()
            if n is not None:
                if ok:
                    reg(x, k, m, n, 'Scope')
                ev.append(['def', si + 1, n, 'Scope', 0, ok, k, int(t == base)])
            elif not ok:
                raise AssertionError('unnamed scope rejected')
            base = t
            if ok:
                scopes.append(x)
                ev.append(['scope', si + 1])
        else:
            n = o[2]
            try:
                x = m[n] if m is top else m.find_identifier(n)
            except NameError:
                x = None
            ev.append(['find', si + 1, n, ob(x)])
            ev.append(['slot', si + 1, n, 'port', ob(m.get_ports().get(n))])
    if text() != base:
        ev.append(['compile', 0])
    for si, m in enumerate(scopes):
        for n in d['names']:
            try:
                x = m[n] if m is top else m.find_identifier(n)
            except NameError:
                x = None
            ev.append(['find', si + 1, n, ob(x)])
    v = text()
    try:
        simulate([v, 'module tb; initial $finish; endmodule'])
        simulate([v], top='top')
        ev.append(['compile', 1])
    except SimError as e:
        ev.append(['compile', 0, str(e)[:400], v])
    return [e if e[0] != 'compile' else e[:2] for e in ev], [e for e in ev if e[0] == 'compile']


def main():
    chk = Check('C21')
    model_check(chk, 'NamesMC', 'NamesMC.cfg' if chk.quick() else 'NamesMC_full.cfg')
    N = chk.n(320, 6000)
    D = [gen(chk.rng, k) for k in range(N)]
    T, I, E = [], [], []
    for d, r in zip(D, pmap(run, D)):
        if r[0] != 'ok':
            chk.violation(r[0] + ':', r[1], dict(design=d, error=r[1:]))
        else:
            T.append(r[1][0])
            E.append(r[1][1])
            I.append(d)
    for (i, ok, line, clause, det) in validate(chk, 'NamesTrace', 'NamesTrace.cfg', T, jobs=4):
        if not ok:
            e = T[i][line - 1]
            chk.violation('%s:%s' % (clause, e[3] if e[0] == 'def' else e[0]), 'event %d: %s %s' % (line, e, E[i][0][2:3] if e[0] == 'compile' else ''),
                          dict(design=I[i], events=T[i][:line], compile=E[i]))
    chk.extra.update(histories=N, operations=sum(len(t) for t in T), rejected=sum(e[0] == 'def' and not e[5] for t in T for e in t))
    chk.sample(T[0][:10])
    chk.assumptions = ['a rejected copy of several objects may have copied those before the one in conflict']
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
