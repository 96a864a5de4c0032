"""AXI bus functional models (plain Verilog) and traffic recorders."""
import os
from vlib import *
from vlib import _ctr

CH = ('aw', 'w', 'b', 'ar', 'r')


def sigs(dw, aw=32, idw=0, lite=False, ridw=None):
    """(name, width, driven by the master?) of one AXI port."""
    s = []
    wid, ridw = idw, idw if ridw is None else ridw
    for c in ('aw', 'ar'):
        idw = wid if c == 'aw' else ridw
        if idw and not lite:
            s.append((c + 'id', idw, True))
        s.append((c + 'addr', aw, True))
        if not lite:
            s += [(c + 'len', 8, True), (c + 'size', 3, True), (c + 'burst', 2, True),
                  (c + 'lock', 1, True)]
        s += [(c + 'cache', 4, True), (c + 'prot', 3, True)]
        if not lite:
            s += [(c + 'qos', 4, True), (c + 'user', 2, True)]
        s += [(c + 'valid', 1, True), (c + 'ready', 1, False)]
    s += [('wdata', dw, True), ('wstrb', dw // 8, True)]
    if not lite:
        s += [('wlast', 1, True)]
    s += [('wvalid', 1, True), ('wready', 1, False)]
    if wid and not lite:
        s.append(('bid', wid, False))
    s += [('bresp', 2, False), ('bvalid', 1, False), ('bready', 1, True)]
    if ridw and not lite:
        s.append(('rid', ridw, False))
    s += [('rdata', dw, False), ('rresp', 2, False)]
    if not lite:
        s += [('rlast', 1, False)]
    s += [('rvalid', 1, False), ('rready', 1, True)]
    return s


def hexfile(words):
    fn = os.path.join(os.getcwd(), 'bfm_%d_%d.hex' % (os.getpid(), next(_ctr)))
    with open(fn, 'w') as f:
        f.write(''.join('%x\n' % w for w in words) or '0\n')
    return fn


def pack(fields):
    """fields: [(value, width)...], most significant first."""
    v = 0
    for x, w in fields:
        assert 0 <= x < (1 << w), (x, w)
        v = (v << w) | x
    return v


def monitor(pre, p, dw, idw, lite, clk='CLK', rst='RST', ridw=None):
    """A recorder of one port's traffic; one line per cycle with some VALID."""
    n = pre
    one, zero = "1'b1", "8'd0"
    ridw = idw if ridw is None else ridw
    aw = lambda c: '%s%sready, %s%saddr, %s, %s, %s, %s' % (
        n, c, n, c, zero if lite else n + c + 'len',
        (n + c + 'id') if (idw if c == 'aw' else ridw) and not lite else zero,
        zero if lite else n + c + 'size', "2'd1" if lite else n + c + 'burst')
    L = ['always @(posedge %s) if(!%s) begin' % (clk, rst),
         ' if(%sawvalid !== 0 || %swvalid !== 0 || %sbvalid !== 0 || %sarvalid !== 0 || %srvalid !== 0) begin' % ((n,) * 5),
         '  $write("@%d %%0d", tb_t);' % p,
         '  if(%sawvalid) $write(" AW %%h %%h %%h %%h %%h %%h", %s);' % (n, aw('aw')),
         '  if(%swvalid) $write(" W %%h %%h %%h %%h", %swready, %s, %swstrb, %swdata);' % (
             n, n, one if lite else n + 'wlast', n, n),
         '  if(%sbvalid) $write(" B %%h %%h %%h", %sbready, %s, %sbresp);' % (
             n, n, (n + 'bid') if idw and not lite else zero, n),
         '  if(%sarvalid) $write(" AR %%h %%h %%h %%h %%h %%h", %s);' % (n, aw('ar')),
         '  if(%srvalid) $write(" R %%h %%h %%h %%h %%h", %srready, %s, %s, %srresp, %srdata);' % (
             n, n, one if lite else n + 'rlast', (n + 'rid') if ridw and not lite else zero, n, n)]
    for c in CH:
        L.append('  if(%s%svalid === 1\'bx || %s%svalid === 1\'bz) $write(" X%s");' % (n, c, n, c, c))
    L += ['  $write("\\n");', ' end', 'end']
    return '\n'.join(L)


def parse(lines, dw):
    """Traffic lines -> (records, other lines).  A record has field 'x' when some
    control signal was unknown."""
    nb = dw // 8
    recs, other = [], []

    def num(x):
        return parse_hex(x)
    for l in lines:
        if not l.startswith('@'):
            other.append(l)
            continue
        f = l[1:].split()
        r = dict(p=int(f[0]), t=int(f[1]), aw=[], w=[], b=[], ar=[], r=[])
        i = 2
        while i < len(f):
            k = f[i]
            if k in ('AW', 'AR'):
                v = [num(x) for x in f[i + 1:i + 7]]
                i += 7
                r[k.lower()] = v
            elif k == 'W':
                s, d = num(f[i + 3]), f[i + 4].rjust((dw + 3) // 4, '0')
                r['w'] = [num(f[i + 1]), num(f[i + 2]),
                          None if s is None else [(s >> j) & 1 for j in range(nb)],
                          [num(d[2 * (nb - 1 - j):2 * (nb - j)]) for j in range(nb)]]
                i += 5
            elif k == 'B':
                r['b'] = [num(x) for x in f[i + 1:i + 4]]
                i += 4
            elif k == 'R':
                d = f[i + 5].rjust((dw + 3) // 4, '0')
                r['r'] = [num(f[i + 1]), num(f[i + 2]), num(f[i + 3]), num(f[i + 4]),
                          [num(d[2 * (nb - 1 - j):2 * (nb - j)]) for j in range(nb)]]
                i += 6
            else:
                r['x'] = k
                i += 1
        # unknown data bytes become -1, unknown control is reported
        for c in CH:
            if not r[c]:
                continue
            v = r[c]
            for j, y in enumerate(v):
                if y is None:
                    r['x'] = '%s[%d]' % (c, j)
                    v[j] = -1
                elif isinstance(y, list):
                    v[j] = [-1 if z is None else z for z in y]
        recs.append(r)
    return recs, other


# ---------------------------------------------------------------------------
# master model: plays lists of requests with the given gaps
# ---------------------------------------------------------------------------
def master_bfm(pre, p, dw, aw, idw, AW, W, AR, seed, readies, lite=False, ridw=None):
    """AW/AR: [dict(addr, len, id, gap, wb, wr)] ; W: [dict(data, strb, last, gap, waw)].
    wb / wr: number of write responses / read bursts (of all ports) to wait for;
    waw: number of addresses accepted on this port to wait for.
    readies: (per 16 chance of BREADY, of RREADY)."""
    sb = dw // 8
    aww = 12 + 12 + 8 + 8 + 8 + aw
    fa = lambda q: pack([(q['wb'], 12), (q['wr'], 12), (q['gap'], 8), (q['id'], 8), (q['len'], 8), (q['addr'], aw)])
    ww = 12 + 8 + 1 + sb + dw
    fw = lambda q: pack([(q['waw'], 12), (q['gap'], 8), (q['last'], 1), (q['strb'], sb), (q['data'], dw)])
    n = pre
    ridw = idw if ridw is None else ridw
    L = []
    for c, lst, w, f in (('aw', AW, aww, fa), ('w', W, ww, fw), ('ar', AR, aww, fa)):
        L += ['reg [%d:0] %sm_%s [0:%d]; initial $readmemh("%s", %sm_%s);' % (
            w - 1, n, c, max(0, len(lst) - 1), hexfile([f(q) for q in lst]), n, c),
            'integer %si_%s; integer %sg_%s; reg [%d:0] %sc_%s; reg %sv_%s;' % (n, c, n, c, w - 1, n, c, n, c),
            'integer %sk_%s; initial begin %si_%s = 0; %sg_%s = 0; %sv_%s = 0; %sk_%s = 0; end' % (
                n, c, n, c, n, c, n, c, n, c)]
    L += ['integer %sseed; integer %snb; integer %snr; initial begin %sseed = %d; %snb = 0; %snr = 0; end' % (
        n, n, n, n, seed, n, n)]
    L += ['assign %saw%s = 0; assign %sar%s = 0;' % (n, x, n, x) for x in
          (['cache', 'prot'] if lite else ['lock', 'cache', 'prot', 'qos', 'user'])]
    if not lite:
        for c in ('aw', 'ar'):
            L += ['assign %s%ssize = %d; assign %s%sburst = 1;' % (n, c, (dw // 8).bit_length() - 1, n, c)]
    L.append('always @(posedge CLK) if(RST) begin')
    L += [' %s%svalid <= 0;' % (n, c) for c in ('aw', 'w', 'ar')] + [' %sbready <= 0; %srready <= 0;' % (n, n)]
    L.append('end else begin')
    # totals (shared by all ports) are blocking updates
    L.append(' if(%sbvalid && %sbready) begin tb_nb = tb_nb + 1; %snb = %snb + 1; end' % (n, n, n, n))
    L.append(' if(%srvalid && %srready%s) begin tb_nr = tb_nr + 1; %snr = %snr + 1; end' % (
        n, n, '' if lite else ' && %srlast' % n, n, n))
    for c, lst in (('aw', AW), ('ar', AR)):
        L += [' %sv_%s = %s%svalid;' % (n, c, n, c),
              ' if(%s%svalid && %s%sready) begin %si_%s = %si_%s + 1; %sg_%s = 0; %sv_%s = 0; %sk_%s = %sk_%s + 1; end' % (
                  n, c, n, c, n, c, n, c, n, c, n, c, n, c, n, c),
              ' if(!%sv_%s && %si_%s < %d) begin' % (n, c, n, c, len(lst)),
              '  %sc_%s = %sm_%s[%si_%s];' % (n, c, n, c, n, c),
              '  if(tb_nb >= %sc_%s[%d:%d] && tb_nr >= %sc_%s[%d:%d]) begin' % (
                  n, c, aww - 1, aww - 12, n, c, aww - 13, aww - 24),
              '   if(%sg_%s >= %sc_%s[%d:%d]) begin' % (n, c, n, c, aww - 25, aww - 32),
              '    %sv_%s = 1; %s%saddr <= %sc_%s[%d:0];' % (n, c, n, c, n, c, aw - 1)]
        if not lite:
            L.append('    %s%slen <= %sc_%s[%d:%d];' % (n, c, n, c, aw + 7, aw))
            if idw if c == 'aw' else ridw:
                L.append('    %s%sid <= %sc_%s[%d:%d];' % (n, c, n, c, aw + 7 + (idw if c == 'aw' else ridw), aw + 8))
        L += ['   end else %sg_%s = %sg_%s + 1;' % (n, c, n, c), '  end', ' end',
              ' %s%svalid <= %sv_%s;' % (n, c, n, c)]
    c = 'w'
    L += [' %sv_w = %swvalid;' % (n, n),
          ' if(%swvalid && %swready) begin %si_w = %si_w + 1; %sg_w = 0; %sv_w = 0; end' % ((n,) * 6),
          ' if(!%sv_w && %si_w < %d) begin' % (n, n, len(W)),
          '  %sc_w = %sm_w[%si_w];' % (n, n, n),
          '  if(%sk_aw >= %sc_w[%d:%d]) begin' % (n, n, ww - 1, ww - 12),
          '   if(%sg_w >= %sc_w[%d:%d]) begin' % (n, n, ww - 13, ww - 20),
          '    %sv_w = 1; %swdata <= %sc_w[%d:0]; %swstrb <= %sc_w[%d:%d];' % (n, n, n, dw - 1, n, n, dw + sb - 1, dw)]
    if not lite:
        L.append('    %swlast <= %sc_w[%d];' % (n, n, dw + sb))
    L += ['   end else %sg_w = %sg_w + 1;' % (n, n), '  end', ' end',
          ' %swvalid <= %sv_w;' % (n, n)]
    for c, pr in (('b', readies[0]), ('r', readies[1])):
        L.append(' %s%sready <= ($unsigned($random(%sseed)) %% 16) < %d;' % (n, c, n, pr))
    L.append('end')
    L.append('wire %sdone = %si_aw >= %d && %si_w >= %d && %si_ar >= %d && %snb >= %d && %snr >= %d;' % (
        n, n, len(AW), n, len(W), n, len(AR), n, len(AW), n, len(AR)))
    return '\n'.join(L)


def master_tb(top, ports, maxcyc, extra='', conn=''):
    """ports: [dict(pre, dw, aw, idw, lite, AW, W, AR, seed, readies)]; pre is the
    port prefix of the instance (with trailing underscore)."""
    L = ['module tb; reg CLK; reg RST; integer tb_t; integer tb_nb; integer tb_nr; integer tb_q;',
         'initial begin CLK = 0; RST = 1; tb_t = 0; tb_nb = 0; tb_nr = 0; tb_q = 0; #48 RST = 0; end',
         'always #5 CLK = !CLK;']
    C = []
    for i, q in enumerate(ports):
        for s, w, m in sigs(q['dw'], q.get('aw', 32), q.get('idw', 0), q.get('lite', False), q.get('ridw')):
            n = q['pre'] + s
            isreg = m and (s[:2] in ('aw', 'ar') and s[2:] in ('addr', 'len', 'id', 'valid') or
                           s in ('wdata', 'wstrb', 'wlast', 'wvalid', 'bready', 'rready'))
            L.append('%s [%d:0] %s;' % ('reg' if isreg else 'wire', w - 1, n))
            C.append('.%s(%s)' % (n, n))
        L.append(master_bfm(q['pre'], i, q['dw'], q.get('aw', 32), q.get('idw', 0), q['AW'], q['W'], q['AR'],
                            q['seed'], q['readies'], q.get('lite', False), q.get('ridw')))
        L.append(monitor(q['pre'], i + 1, q['dw'], q.get('idw', 0), q.get('lite', False), ridw=q.get('ridw')))
    L.append('wire tb_done = %s;' % ' && '.join(q['pre'] + 'done' for q in ports))
    L.append('%s uut(.CLK(CLK), .RST(RST), %s%s);' % (top, ', '.join(C), conn))
    L.append('always @(posedge CLK) begin tb_t <= tb_t + 1; if(tb_done && !RST) tb_q <= tb_q + 1;')
    L.append(' if(tb_q > 30) begin $display("DONE"); $finish; end')
    L.append(' if(tb_t > %d) begin $display("TIMEOUT"); $finish; end end' % maxcyc)
    L.append(extra)
    L.append('endmodule')
    return '\n'.join(L)


# ---------------------------------------------------------------------------
# slave model: a byte memory with random timing.  Initial byte at a: slave_init(a)
# ---------------------------------------------------------------------------
def slave_init(a):
    return (a * 7 + (a >> 8) * 11 + (a >> 3) * 5 + 3) & 255


SLAVE_INIT_V = '((%s) * 7 + ((%s) >> 8) * 11 + ((%s) >> 3) * 5 + 3)'


def slave_bfm(pre, dw, aw, idw, s, nbytes, lite=False, ridw=None, base=0):
    """s: dict(seed, aw, w, ar, r, b: chances per 16; blat, rlat: maximum extra latency;
    mode: '' | 'aw_after_w' | 'w_after_aw'; maxq: outstanding bursts).
    Memory covers addresses base..base+nbytes-1; other accesses are reported as OUT."""
    n = pre
    sb = dw // 8
    ridw = idw if ridw is None else ridw
    L = ['reg [7:0] %smem [0:%d]; integer %si;' % (n, nbytes - 1, n),
         'initial for(%si = 0; %si < %d; %si = %si + 1) %smem[%si] = %s;' % (
             n, n, nbytes, n, n, n, n, SLAVE_INIT_V.replace('%s', n + 'i')),
         'integer %sseed; initial %sseed = %d;' % (n, n, s['seed']),
         'reg [%d:0] %sawq [0:1023]; reg [%d:0] %sarq [0:1023]; reg [7:0] %sarl [0:1023]; integer %sart [0:1023]; integer %sbt [0:1023];' % (
             aw - 1, n, aw - 1, n, n, n, n),
         'reg [15:0] %sawi [0:1023]; reg [15:0] %sari [0:1023];' % (n, n),
         'reg [%d:0] %swbd [0:65535]; reg [%d:0] %swbs [0:65535]; reg %swbl [0:65535];' % (dw - 1, n, sb - 1, n, n),
         'integer %snaw, %snw, %spw, %sca, %sbe, %snb, %snar, %scr, %srb, %sj; reg [%d:0] %sad; reg %srv; reg %sbv; reg [%d:0] %srd;' % (
             n, n, n, n, n, n, n, n, n, n, aw - 1, n, n, n, dw - 1, n),
         'initial begin %s end' % ' '.join('%s%s = 0;' % (n, x) for x in
                                           ('naw', 'nw', 'pw', 'ca', 'be', 'nb', 'nar', 'cr', 'rb', 'rv', 'bv'))]
    rnd = lambda c: '($unsigned($random(%sseed)) %% 16) < %d' % (n, s[c])
    lat = lambda c: 'tb_t + ($unsigned($random(%sseed)) %% %d)' % (n, s[c] + 1)
    L += ['always @(posedge CLK) if(RST) begin',
          ' %sawready <= 0; %swready <= 0; %sbvalid <= 0; %sarready <= 0; %srvalid <= 0; %sbresp <= 0; %srresp <= 0;' % ((n,) * 7),
          'end else begin',
          ' if(%sawvalid && %sawready) begin %sawq[%snaw %% 1024] = %sawaddr; %s%snaw = %snaw + 1; end' % (
              n, n, n, n, n, ('%sawi[%snaw %% 1024] = %sawid; ' % (n, n, n)) if idw and not lite else '', n, n),
          ' if(%swvalid && %swready) begin %swbd[%snw %% 65536] = %swdata; %swbs[%snw %% 65536] = %swstrb; %swbl[%snw %% 65536] = %s; %snw = %snw + 1; end' % (
              n, n, n, n, n, n, n, n, n, n, '1' if lite else n + 'wlast', n, n),
          ' while(%spw < %snw && %sca < %snaw) begin' % (n, n, n, n),
          '  %sad = %sawq[%sca %% 1024] + %sbe * %d;' % (n, n, n, n, sb),
          '  for(%sj = 0; %sj < %d; %sj = %sj + 1) if(%swbs[%spw %% 65536][%sj]) begin' % (n, n, sb, n, n, n, n, n),
          '   if(%sad - %d + %sj < %d) %smem[%sad - %d + %sj] = %swbd[%spw %% 65536][8*%sj +: 8]; else $display("OUT w %%0d", %sad);' % (
              n, base, n, nbytes, n, n, base, n, n, n, n, n),
          '  end',
          '  if(%swbl[%spw %% 65536]) begin %sbt[%sca %% 1024] = %s; %sca = %sca + 1; %sbe = 0; end else %sbe = %sbe + 1;' % (
              n, n, n, n, lat('blat'), n, n, n, n, n),
          '  %spw = %spw + 1;' % (n, n),
          ' end',
          ' if(%sbvalid && %sbready) begin %sbv = 0; %snb = %snb + 1; end' % (n, n, n, n, n),
          ' if(!%sbv && %snb < %sca && tb_t >= %sbt[%snb %% 1024] && %s) begin %sbv = 1;%s end' % (
              n, n, n, n, n, rnd('b'), n,
              (' %sbid <= %sawi[%snb %% 1024];' % (n, n, n)) if idw and not lite else ''),
          ' %sbvalid <= %sbv;' % (n, n),
          ' if(%sarvalid && %sarready) begin %sarq[%snar %% 1024] = %saraddr; %sarl[%snar %% 1024] = %s; %sart[%snar %% 1024] = %s; %s%snar = %snar + 1; end' % (
              n, n, n, n, n, n, n, '0' if lite else n + 'arlen', n, n, lat('rlat'),
              ('%sari[%snar %% 1024] = %sarid; ' % (n, n, n)) if ridw and not lite else '', n, n),
          ' if(%srvalid && %srready) begin %srv = 0; if(%srb == %sarl[%scr %% 1024]) begin %srb = 0; %scr = %scr + 1; end else %srb = %srb + 1; end' % (
              (n,) * 11),
          ' if(!%srv && %scr < %snar && tb_t >= %sart[%scr %% 1024] && %s) begin' % (n, n, n, n, n, rnd('r')),
          '  %srv = 1; %sad = %sarq[%scr %% 1024] + %srb * %d; %srd = 0;' % (n, n, n, n, n, sb, n),
          '  for(%sj = 0; %sj < %d; %sj = %sj + 1) if(%sad - %d + %sj < %d) %srd[8*%sj +: 8] = %smem[%sad - %d + %sj]; else if(%sj == 0) $display("OUT r %%0d", %sad);' % (
              n, n, sb, n, n, n, base, n, nbytes, n, n, n, n, base, n, n, n),
          '  %srdata <= %srd;%s%s' % (n, n, '' if lite else ' %srlast <= (%srb == %sarl[%scr %% 1024]);' % (n, n, n, n),
                                   ' %srid <= %sari[%scr %% 1024];' % (n, n, n) if ridw and not lite else ''),
          ' end',
          ' %srvalid <= %srv;' % (n, n),
          ' %sarready <= (%snar - %scr < %d) && %s;' % (n, n, n, s['maxq'], rnd('ar')),
          ' %sawready <= (%snaw - %snb < %d) && %s%s;' % (
              n, n, n, s['maxq'], rnd('aw'),
              ' && (%swvalid && (%snaw <= %sca) || %snw > %spw)' % (n, n, n, n, n) if s['mode'] == 'aw_after_w' else ''),
          ' %swready <= %s%s;' % (n, rnd('w'), ' && (%snaw > %sca)' % (n, n) if s['mode'] == 'w_after_aw' else ''),
          'end']
    return '\n'.join(L)


def slave_dump(pre, nbytes, tag='M'):
    n = pre
    return ('for(%si = 0; %si < %d; %si = %si + 1) if(%smem[%si] !== ((%s) & 255)) $display("%s %%0d %%h", %si, %smem[%si]);' % (
        n, n, nbytes, n, n, n, n, SLAVE_INIT_V.replace('%s', n + 'i'), tag, n, n, n))


def slave_tb(top, ports, maxcyc, settle=200, extra='', conn=''):
    """The design drives AXI ports; ports: [dict(pre, dw, aw, idw, ridw, lite, s, nbytes, base)].
    The design has an output 'done'; the memories are dumped 'settle' cycles later."""
    L = ['module tb; reg CLK; reg RST; integer tb_t; integer tb_q; wire tb_done;',
         'initial begin CLK = 0; RST = 1; tb_t = 0; tb_q = 0; #48 RST = 0; end',
         'always #5 CLK = !CLK;']
    C = []
    for i, q in enumerate(ports):
        a = (q['dw'], q.get('aw', 32), q.get('idw', 0), q.get('lite', False), q.get('ridw'))
        for s, w, m in sigs(*a):
            n = q['pre'] + s
            L.append('%s [%d:0] %s;' % ('wire' if m else 'reg', w - 1, n))
            C.append('.%s(%s)' % (n, n))
        L.append(slave_bfm(q['pre'], q['dw'], q.get('aw', 32), q.get('idw', 0), q['s'], q['nbytes'],
                           q.get('lite', False), q.get('ridw'), q.get('base', 0)))
        L.append(monitor(q['pre'], i + 1, q['dw'], q.get('idw', 0), q.get('lite', False), ridw=q.get('ridw')))
    L.append('%s uut(.CLK(CLK), .RST(RST), .done(tb_done), %s%s);' % (top, ', '.join(C), conn))
    L.append('always @(posedge CLK) begin tb_t <= tb_t + 1; if(tb_done === 1 && !RST) tb_q <= tb_q + 1;')
    L.append(' if(tb_q > %d || tb_t > %d) begin' % (settle, maxcyc))
    for i, q in enumerate(ports):
        L.append('  ' + slave_dump(q['pre'], q['nbytes'], 'M%d' % (i + 1)))
    L.append('  if(tb_q > %d) $display("DONE"); else $display("TIMEOUT"); $finish; end end' % settle)
    L.append(extra)
    L.append('endmodule')
    return '\n'.join(L)
