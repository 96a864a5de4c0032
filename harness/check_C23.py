"""C23: UART.  Line and ports of transmitter and receiver against Uart.tla."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


def gen_port(rng, k):
    W = rng.choice((3, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33))
    if k % 10 == 9:
        W = rng.choice((63, 64, 65, 127, 128, 200, 434))
    n = rng.randrange(3, 12) if W < 50 else 3
    gaps = [rng.choice((0, 0, 0, 1, 2, 3, W, rng.randrange(3 * W + 2))) for _ in range(n)]
    data = [rng.choice((0, 255, 0x55, 0xaa, 1, 128, rng.randrange(256), rng.randrange(256), rng.randrange(256))) for _ in range(n)]
    # (clock, baud) with int(clock / baud) = W
    baud = rng.choice((1, 9600, 19200, 115200))
    clock = baud * W + (rng.randrange(baud) if rng.random() < .5 else 0)
    return dict(kind='port', W=W, baud=baud, clock=clock, data=data, gaps=gaps, style=rng.randrange(4), seed=rng.randrange(1, 1 << 30))


PORT_TB = """
module tb;
  reg CLK, RST; integer i, k, gap, seed, cyc, quiet; reg [7:0] data [0:%(n)d]; integer gaps [0:%(n)d];
  reg en; reg [7:0] din; wire rdy, txd, valid; wire [7:0] dout;
  wire acc = en & rdy & !RST;
  reg line;
  top uut(.CLK(CLK), .RST(RST), .tx_din(din), .tx_enable(en), .tx_ready(rdy), .tx_txd(txd),
          .rx_rxd(%(line)s), .rx_dout(dout), .rx_valid(valid));
  initial begin CLK = 0; forever #5 CLK = !CLK; end
  initial begin
    seed = %(seed)d; k = 0; gap = 0; en = 0; din = 8'hxx; RST = 1; cyc = 0; quiet = 0; line = 1;
%(init)s
    for(cyc = 0; cyc < %(maxcyc)d && quiet < %(quiet)d; cyc = cyc + 1) begin
      @(posedge CLK); #1;
      RST = cyc < 4;
      // choose the transmitter's inputs of this cycle
      if(cyc > 5 && k < %(n)d) begin
        if(rdy !== 1'b1) begin
          // busy: the inputs are free
          en = %(busy)s; din = $random(seed); gap = 0;
        end else if(gap >= gaps[k]) begin
          en = 1; din = data[k];
        end else begin
          en = 0; din = $random(seed); gap = gap + 1;
        end
      end else begin en = 0; din = %(end_din)s; end
      #5;
      if(cyc >= 6) begin
        $display("@%%b %%b %%h %%b %%h %%b", %(line)s, acc, din, valid, dout, rdy);
        if(acc) begin k = k + 1; gap = 0; end
        quiet = (k == %(n)d) ? quiet + 1 : 0;
      end
    end
    if(k == %(n)d) $display("DONE");
    $finish;
  end
endmodule
"""


def run_port(d):
    import veriloggen as vg
    from veriloggen.thread.uart import UartTx, UartRx
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    kw = dict(baudrate=d['baud'], clockfreq=d['clock'])
    UartTx(m, 'itx', 'tx_', clk, rst, as_io=('din', 'enable', 'ready', 'txd'), **kw)
    UartRx(m, 'irx', 'rx_', clk, rst, as_io=('rxd', 'dout', 'valid'), **kw)
    n = len(d['data'])
    init = '\n'.join('data[%d] = %d; gaps[%d] = %d;' % (i, x, i, g) for i, (x, g) in enumerate(zip(d['data'], d['gaps'])))
    busy = ('0', '1', '$random(seed)', '($random(seed) & 7) == 0')[d['style']]
    tb = PORT_TB % dict(n=n, seed=d['seed'], init=init, maxcyc=n * d['W'] * 16 + sum(d['gaps']) + 400, quiet=13 * d['W'] + 40,
                        busy=busy, line='txd', end_din="8'hxx")
    lines = simulate([m.to_verilog(), tb], timeout=120)
    ev = []
    for l in lines:
        if l[0] == '@':
            f = l[1:].split()
            if f[0] not in '01' or f[3] not in '01' or f[5] not in '01':
                raise SimError('undefined output ' + l)
            ev.append([1, int(f[0]), int(f[1]), parse_hex(f[2]) if f[1] == '1' else 0, int(f[3]), (parse_hex(f[4]) if 'x' not in f[4] else -1) if f[3] == '1' else 0])
    if 'DONE' not in lines:
        raise SimError('ready did not come back: %d of %d bytes accepted' % (sum(e[2] for e in ev), n))
    return dict(W=d['W'], tx=True, rx=True, ev=squeeze(ev))


def squeeze(ev):
    out = []
    for e in ev:
        if out and out[-1][1:] == e[1:] and not e[2] and not e[4]:
            out[-1][0] += 1
        else:
            out.append(list(e))
    return out


# ---- receivers fed by an ideal line ----------------------------------------
LINE_TB = """
module tb;
  reg CLK, RST; integer i, j, seed, cyc; reg [7:0] data [0:%(n)d]; integer gaps [0:%(n)d];
  wire valid; wire [7:0] dout; reg line; reg [9:0] fr;
  top uut(.CLK(CLK), .RST(RST), .rx_rxd(line), .rx_dout(dout), .rx_valid(valid));
  initial begin CLK = 0; forever #5 CLK = !CLK; end
  task cy; begin #5; $display("@%%b 0 0 %%b %%h 0", line, valid, dout); @(posedge CLK); #1; end endtask
  initial begin
    seed = %(seed)d; RST = 1; line = 1;
%(init)s
    repeat(5) @(posedge CLK); #1; RST = 0;
    for(i = 0; i < %(n)d; i = i + 1) begin
      line = 1; repeat(gaps[i]) cy;
      fr = {1'b1, data[i], 1'b0};
      for(j = 0; j < 10; j = j + 1) begin line = fr[j]; repeat(%(W)d) cy; end
    end
    line = 1; repeat(2 * %(W)d + 40) cy;
    $finish;
  end
endmodule
"""


def run_line(d):
    import veriloggen as vg
    from veriloggen.thread.uart import UartRx
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    UartRx(m, 'irx', 'rx_', clk, rst, as_io=('rxd', 'dout', 'valid'), baudrate=d['baud'], clockfreq=d['clock'])
    n = len(d['data'])
    init = '\n'.join('data[%d] = %d; gaps[%d] = %d;' % (i, x, i, g) for i, (x, g) in enumerate(zip(d['data'], d['gaps'])))
    lines = simulate([m.to_verilog(), LINE_TB % dict(n=n, seed=d['seed'], init=init, W=d['W'])], timeout=120)
    ev = []
    for l in lines:
        if l[0] == '@':
            f = l[1:].split()
            if f[3] not in '01':
                raise SimError('undefined output ' + l)
            ev.append([1, int(f[0]), 0, 0, int(f[3]), (parse_hex(f[4]) if 'x' not in f[4] else -1) if f[3] == '1' else 0])
    return dict(W=d['W'], tx=False, rx=True, ev=squeeze(ev))


# ---- threads ----------------------------------------------------------------
def gen_thread(rng, k):
    d = gen_port(rng, 0)
    d.update(kind='thread', W=rng.choice((4, 5, 6, 8, 10, 13, 16)))
    d['clock'] = d['baud'] * d['W']
    d['senders'] = rng.choice((1, 1, 2))
    d['extra'] = rng.randrange(4)
    d['echo'] = k % 2
    return d


def thread_src(d):
    L = []
    S = d['senders']
    for s in range(S):
        L.append('def snd%d():' % s)
        L.append('    for i in range(3):\n        pass')
        for i in range(s, len(d['data']), S):
            if d['gaps'][i]:
                L.append('    for i in range(%d):\n        pass' % d['gaps'][i])
            if S > 1:
                L.append('    tx.lock()')
            a = str(d['data'][i])
            if i % 3 == 1:
                L.append('    b = %s' % a)
                a = 'b'
            L.append("    print('S %%d %d', now)" % d['data'][i])
            L.append('    tx.send(%s)' % a)
            if S > 1:
                L.append('    tx.unlock()')
        L.append("    print('F')")
    L.append('def rcv():')
    L.append('    while True:')
    L.append('        c = rx.recv()')
    L.append("        print('R %d %d', now, c)")
    L.append('        for j in range(%d):\n            pass' % d['extra'])
    for s in range(S):
        L.append("vthread.Thread(m, 'ths%d', clk, rst, snd%d).start()" % (s, s))
    L.append("vthread.Thread(m, 'thr', clk, rst, rcv).start()")
    return '\n'.join(L) + '\n'


def run_thread(d):
    import veriloggen as vg
    import veriloggen.thread as vthread
    from veriloggen.thread.uart import UartTx, UartRx
    m = vg.Module('top')
    clk, rst = m.Input('CLK'), m.Input('RST')
    now = m.Input('now', 32)
    kw = dict(baudrate=d['baud'], clockfreq=d['clock'])
    if d['echo']:
        # txd and rxd given as signals of the parent
        txd, rxd = m.Output('txd'), m.Input('rxd')
        tx = UartTx(m, 'itx', 'tx_', clk, rst, txd, **kw)
        rx = UartRx(m, 'irx', 'rx_', clk, rst, rxd, **kw)
    else:
        txd, rxd = m.Output('txd'), m.Input('rxd')
        tx = UartTx(m, 'itx', 'tx_', clk, rst, as_wire='txd', **kw)
        rx = UartRx(m, 'irx', 'rx_', clk, rst, as_wire='rxd', **kw)
        txd.assign(tx['txd'])
        rx['rxd'].assign(rxd)
    load_src(thread_src(d), m=m, clk=clk, rst=rst, now=now, tx=tx, rx=rx, vthread=vthread)
    n = len(d['data'])
    maxcyc = n * d['W'] * 13 + sum(d['gaps']) * 4 + 60 * n + 400
    tb = """module tb; reg CLK, RST; integer t, q; wire line; reg line_r;
  top uut(.CLK(CLK), .RST(RST), .now(t), .txd(line), .rxd(line));
  initial begin CLK = 0; RST = 1; q = 0;
   for(t = 0; t < %d; t = t + 1) begin #4; if(t > 8) $display("@%%0d %%b", t, line); #1; CLK = 1; #1; if(t == 5) RST = 0; #4; CLK = 0; end $finish; end
endmodule""" % maxcyc
    lines = simulate([m.to_verilog(), tb], timeout=120)
    ev, idx, fin = [], {}, 0
    for l in lines:
        if l[0] == '@':
            f = l[1:].split()
            if f[1] not in '01':
                raise SimError('undefined line')
            idx[int(f[0])] = len(ev)
            ev.append([1, int(f[1]), 0, 0, 0, 0])
    for l in lines:
        f = l.split()
        if l[0] == 'F':
            fin += 1
        elif l[0] == 'S':
            ev[idx[int(f[1])]][2:4] = [1, int(f[2])]
        elif l[0] == 'R':
            ev[idx[int(f[1])]][4:6] = [1, int(f[2]) if f[2].isdigit() else -1]
    if fin != d['senders']:
        raise SimError('a sending thread did not finish')
    return dict(W=d['W'], tx=True, rx=True, ev=squeeze(ev))


def run(d):
    return dict(port=run_port, line=run_line, thread=run_thread)[d['kind']](d)


def main():
    chk = Check('C23')
    model_check(chk, 'UartMC', 'UartMC.cfg')
    N = chk.n(60, 800)
    D = [gen_port(chk.rng, k) for k in range(N)]
    D += [dict(gen_port(chk.rng, k), kind='line') for k in range(N)]
    D += [gen_thread(chk.rng, k) for k in range(N // 2)]
    T, I = [], []
    for d, r in zip(D, pmap(run, D)):
        if r[0] != 'ok':
            chk.violation(d['kind'] + ':' + r[0], r[1], dict(design=d, error=r[1:]))
        else:
            T.append(r[1])
            I.append(d)
    for (i, ok, line, clause, det) in validate(chk, 'UartTrace', 'UartTrace.cfg', T, jobs=8):
        if not ok:
            chk.violation(I[i]['kind'] + ':' + clause, 'W=%d event %d: %s' % (I[i]['W'], line, det),
                          dict(design=I[i], events=T[i]['ev'][max(0, line - 30):line + 1]))
    chk.extra.update(designs=len(D), bytes=sum(len(d['data']) for d in D), bit_times=sorted(set(d['W'] for d in D)))
    chk.sample(D[0])
    chk.assumptions = ['bit times of at least 3 clock cycles', 'the receiving thread asks for the next byte before it is complete']
    return chk.finish()


if __name__ == '__main__':
    sys.exit(main())
