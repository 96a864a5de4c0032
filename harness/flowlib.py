"""Operator graphs with ready/valid handshakes: test benches and traces for Flow.tla."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


def bits(v, w):
    return [(v >> i) & 1 for i in range(w)]


def KE(v, w=32, s=1):
    """constant expression node"""
    return ['k', w, s, bits(v, w)]


def CE(v):
    """literal of the generated code: a negative one is a negated literal"""
    w = abs(v).bit_length() + 1
    e = ['k', w, 1, bits(abs(v), w)]
    return ['u-', e] if v < 0 else e


def node(k, a=(), n=(), w=0, s=0, b=(), **kw):
    d = dict(k=k, a=list(a), n=list(n), w=w, s=int(s), b=list(b), e=[], op='', i=[], t=[], c=[])
    d.update(kw)
    return d


def rnd(rng, w):
    c = rng.random()
    if c < .2:
        return rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1])
    if c < .35:
        return rng.randrange(min(1 << w, 8))
    return rng.randrange(1 << w)


def merge(texts):
    """One copy of every module of several emissions; different modules of one
    name are an error of the emission."""
    mods, order = {}, []
    for t in texts:
        for m in re.finditer(r'^[ \t]*module\s+(\w+)\b.*?^[ \t]*endmodule[^\n]*$', t, re.M | re.S):
            if m.group(1) in mods:
                if mods[m.group(1)] != m.group(0):
                    raise RuntimeError('two different modules named %s' % m.group(1))
                continue
            mods[m.group(1)] = m.group(0)
            order.append(m.group(1))
    return '\n\n'.join(mods[n] for n in order)


def tb(d, k):
    """Test bench module tb<k> of design d; prints lines 'E k iv ir ov or | data...'."""
    L = []
    e = L.append
    name = d['name']
    e('module tb%d;' % k)
    e('reg CLK = 0; reg RST = 1; always #5 CLK = ~CLK; integer cyc = 0; integer seed = %d; reg flush = 0; reg [31:0] rr;' % d['seed'])
    conn = ['.CLK(CLK)', '.RST(RST)']
    for p, v, w in d.get('pins', ()):
        conn.append(".%s(%d'd%d)" % (p, w, v))
    for g, G in enumerate(d['ig']):
        e('reg iv%d = 0; wire ir%d; integer n%d = 0;' % (g, g, g))
        if G['valid']:
            conn.append('.%s(iv%d)' % (G['valid'], g))
        if G['ready']:
            conn.append('.%s(ir%d)' % (G['ready'], g))
        else:
            e('assign ir%d = 1;' % g)
    N = d['N']
    for j, I in enumerate(d['ins']):
        e('reg [%d:0] m%d [0:%d]; wire [%d:0] x%d;' % (I['w'] - 1, j, N, I['w'] - 1, j))
        e('initial begin %s end' % ' '.join("m%d[%d] = %d'd%d;" % (j, i, I['w'], v) for i, v in enumerate(I['tok'] + [0])))
        # data is meaningful only while valid
        e("assign x%d = iv%d ? m%d[n%d] : {%d{1'b%s}};" % (j, I['g'], j, I['g'], I['w'], 'x' if d['ig'][I['g']]['valid'] and d.get('xidle', 1) else '0'))
        conn.append('.%s(x%d)' % (I['port'], j))
    for g, G in enumerate(d['og']):
        e('wire ov%d; reg or%d = 0;' % (g, g))
        if G['valid']:
            conn.append('.%s(ov%d)' % (G['valid'], g))
        else:
            e('assign ov%d = 1;' % g)
        if G['ready']:
            conn.append('.%s(or%d)' % (G['ready'], g))
    for j, O in enumerate(d['outs']):
        e('wire [%d:0] z%d;' % (O['w'] - 1, j))
        conn.append('.%s(z%d)' % (O['port'], j))
    e('%s dut(%s);' % (name, ', '.join(conn)))
    e('always @(posedge CLK) begin cyc <= cyc + 1; if(cyc == 3) RST <= 0; if(cyc == %d) flush <= 1;' % d['t0'])
    e('if(!RST && cyc > 4) begin')
    fmt = 'E %d ' % k + '%b' * (2 * len(d['ig'])) + ' ' + '%b' * (2 * len(d['og'])) + ' %b' * len(d['outs'])
    e('$display("%s"%s);' % (fmt, ''.join(', ' + x for x in
      ['iv%d, ir%d' % (g, g) for g in range(len(d['ig']))] +
      ['ov%d, or%d' % (g, g) for g in range(len(d['og']))] + ['z%d' % j for j in range(len(d['outs']))])))
    e('rr = $random(seed);')
    lock = d.get('regime', 'lock') == 'lock'
    for g, G in enumerate(d['ig']):
        # the inputs of a design are offered together unless it says otherwise
        p = d['ig'][0]['p'] if lock else G['p']
        go = '(flush || (rr[%d:%d] & 7) < %d)' % ((2, 0, p) if lock else (3 * g + 2, 3 * g, p))
        if not G['valid']:
            e('iv%d <= 1; if(iv%d && ir%d && n%d < %d) n%d <= n%d + 1;' % (g, g, g, g, N, g, g))
        else:
            e('if(iv%d && ir%d === 1) begin n%d <= n%d + 1; iv%d <= n%d + 1 < %d && %s; end' % (g, g, g, g, g, g, N, go))
            e('else if(!iv%d) iv%d <= n%d < %d && %s;' % (g, g, g, N, go))
    for g, G in enumerate(d['og']):
        # the outputs of a design are accepted together unless it says otherwise
        nt = len(d['og']) if lock else 1
        tgt = '{%s}' % ', '.join('or%d' % (g + x) for x in range(nt))
        if not G['ready']:
            e('or%d <= 1;' % g)
        elif g and lock:
            continue
        elif G['mode'] == 1:
            e('%s <= {%d{flush || (ov%d && !or%d && ($random(seed) & 7) < %d)}};' % (tgt, nt, g, g, G['p']))
        else:
            e('%s <= {%d{flush || ($random(seed) & 7) < %d}};' % (tgt, nt, G['p']))
    e('end')
    e('if(cyc == %d) $finish_me; end' % d['t1'] if False else 'end')
    for g, G in enumerate(d['og']):
        if not G['ready']:
            e('initial or%d = 1;' % g)
    e('endmodule')
    return '\n'.join(L)


def simulate_all(ds, texts):
    """Simulate designs together; returns per-design list of raw records."""
    T = max(d['t1'] for d in ds)
    src = merge(texts) + '\n' + '\n'.join(tb(d, k) for k, d in enumerate(ds))
    src += '\nmodule tb;\n' + '\n'.join('tb%d t%d();' % (k, k) for k in range(len(ds)))
    src += '\ninitial #%d $finish;\nendmodule\n' % (10 * T)
    out = simulate([src], timeout=200)
    recs = [[] for _ in ds]
    for line in out:
        f = line.split()
        if len(f) >= 4 and f[0] == 'E':
            recs[int(f[1])].append(f[2:])
    return recs


def trace(d, recs):
    vals, idx = [], {}
    ev = []
    pend = False
    ni, no = len(d['ig']), len(d['og'])
    bit = {'0': 0, '1': 1}
    for f in recs[:d['t1'] - 6]:
        h = [bit.get(c, 2) for c in f[0]]
        g = [bit.get(c, 2) for c in f[1]]
        iv, ir, ov, orr = h[0::2], h[1::2], g[0::2], g[1::2]
        if not pend and not any(ov) and not any(a and b for a, b in zip(iv, ir)) and 2 not in h + g:
            continue
        # a group that offers no token does not care about its ready
        ir = [r if v else 0 for v, r in zip(iv, ir)]
        od = []
        for j, x in enumerate(f[2:]):
            if ov[d['outs'][j]['g']] != 1:
                od.append(0)
                continue
            if x not in idx:
                vals.append([int(c) if c in '01' else 2 for c in reversed(x)])
                idx[x] = len(vals)
            od.append(idx[x])
        pend = any(v and not r for v, r in zip(ov, orr))
        ev.append([iv, ir, ov, orr, od])
    N = d['N']
    return dict(nodes=d['nodes'], toks=[[bits(v, I['w']) for v in I['tok']] for I in d['ins']] or [[[0]] * N],
                hs=[I['g'] + 1 for I in d['ins']],
                outs=[[O['node'], O['g'] + 1] for O in d['outs']], ng=ni, no=no,
                cone=[[c + 1 for c in G['cone']] for G in d['og']], vals=vals, ev=ev, drain=1)
