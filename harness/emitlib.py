"""Staged descriptions for C20: each is a list of steps on a context."""
import veriloggen as vg
import veriloggen.thread as vthread
import veriloggen.stream as stream
import veriloggen.dataflow as dataflow
import veriloggen.types.axi as axi
import veriloggen.types.fixed as fixed


def _top(c, name):
    m = c.m = vg.Module(name)
    c.clk = m.Input('CLK')
    c.rst = m.Input('RST')
    return m


# ---- sequential logic ---------------------------------------------------------
def seq0(c):
    m = _top(c, 'seqm')
    c.a = m.Input('a', 8)
    c.o = m.OutputReg('o', 8, initval=0)
    c.seq = vg.Seq(m, 'seq', c.clk, c.rst)
    c.seq.If(c.a > 3)(c.o(c.a + 1))
    c.seq.Delay(2)(c.o(0))


def seq1(c):
    p = c.seq.Prev(c.a, 2)
    t = c.m.TmpReg(8, initval=3)
    c.seq.If(p[0]).Else(t(p + c.a))
    c.seq.If(p == 1).EagerVal().Delay(1)(t.inc())


def seq2(c):
    s2 = vg.TmpSeq(c.m, c.clk, c.rst)
    u = c.m.TmpReg(4, initval=0)
    s2(u.inc())


# ---- state machines -----------------------------------------------------------
def fsm0(c):
    m = _top(c, 'fsmm')
    c.a = m.Input('a', 4)
    c.o = m.OutputReg('o', 4, initval=1)
    f = c.f = vg.FSM(m, 'fsm', c.clk, c.rst)
    f.If(c.a == 0)(c.o.inc())
    f.goto_next(c.a[1])
    f.goto_next()


def fsm1(c):
    f = c.f
    f.Delay(2)(c.o(c.a))
    f.goto_init(c.a[2])
    f.goto_next()
    r = c.m.TmpReg(3, initval=0)
    f(r.inc())
    f.goto_init()


def fsm2(c):
    g = vg.TmpFSM(c.m, c.clk, c.rst)
    w = c.m.Reg('w', 4, initval=0)
    g.If(c.f.here)(w(c.a))
    g.goto_next()
    g.goto_init()
    g.make_always()


# ---- threads ------------------------------------------------------------------
def thr0(c):
    m = _top(c, 'thrm')
    ram = c.ram = vthread.RAM(m, 'ram', c.clk, c.rst, 16, 5, numports=2)
    mtx = c.mtx = vthread.Mutex(m, 'mtx', c.clk, c.rst)
    led = c.led = m.OutputReg('led', 16, initval=0)

    def work(n):
        s = 0
        for i in range(n):
            mtx.lock()
            v = ram.read(i)
            if v > 3 and i != 2:
                s += v * i
            else:
                ram.write(i, s)
            mtx.unlock()
        led.value = s
        print('%d %d' % (s, n))
        return s

    def kid(x):
        ram.write(x, 7, port=1)

    k = c.kid = vthread.Thread(m, 'kid', c.clk, c.rst, kid)

    def boss():
        k.run(3)
        work(5)
        k.join()
    c.th = vthread.Thread(m, 'boss', c.clk, c.rst, boss)
    c.th.start()


def thr1(c):
    led, ram = c.led, c.ram
    fifo = vthread.FIFO(c.m, 'fifo', c.clk, c.rst, 8, 3)

    def more():
        while True:
            fifo.enq(3)
            if fifo.deq() == 1:
                break

    def other(n):
        ram.write(n, 1, port=1)
    th = vthread.Thread(c.m, 'more', c.clk, c.rst, more)
    th.start()
    vthread.Thread(c.m, 'other', c.clk, c.rst, other).start(2)


# ---- dma ----------------------------------------------------------------------
def dma0(c):
    m = _top(c, 'dmam')
    x = c.x = vthread.AXIM(m, 'bus', c.clk, c.rst, 32)
    r = c.r = vthread.RAM(m, 'r', c.clk, c.rst, 32, 6)
    mb = vthread.MultibankRAM(m, 'mb', c.clk, c.rst, 32, 5, numbanks=2)

    def f():
        x.dma_read(r, 0, 64, 16)
        r.write(3, r.read(2) + 1)
        x.dma_write_async(r, 4, 128, 8)
        x.dma_wait_write()
        x.dma_read(mb, 0, 256, 8)
        x.write(12, 4)
    vthread.Thread(m, 'f', c.clk, c.rst, f).start()


def dma1(c):
    x, r = c.x, c.r
    v = vthread.RAM(c.m, 'v', c.clk, c.rst, 32, 6, numports=2)

    def g():
        vthread.copy(r, v, 0, 4, 8)
        vthread.copy_pattern(r, v, 0, 4, ((2, 1), (2, 3)), ((4, 1),))
    vthread.Thread(c.m, 'g', c.clk, c.rst, g).start()


# ---- streams in threads ---------------------------------------------------------
def str0(c):
    m = _top(c, 'strm')
    r = c.r = vthread.RAM(m, 'r', c.clk, c.rst, 32, 6, numports=2)
    q = c.q = vthread.RAM(m, 'q', c.clk, c.rst, 32, 6)
    s = c.s = vthread.Stream(m, 's', c.clk, c.rst)
    a = s.source('a')
    b = s.source('b')
    k = s.parameter('k')
    y = a * b + k
    z, v = s.ReduceAddValid(y, size=k)
    s.sink(y, 'y')
    s.sink(z, 'z', when=v, when_name='v')

    def f(n):
        s.set_source('a', r, 0, n)
        s.set_source('b', r, 8, n, port=1)
        s.set_parameter('k', 4)
        s.set_sink('y', q, 0, n)
        s.set_sink('z', q, 32, n >> 2)
        s.run()
        s.join()
    vthread.Thread(m, 'f', c.clk, c.rst, f).start(16)


def str1(c):
    m, r, q = c.m, c.r, c.q
    t = vthread.Stream(m, 't', c.clk, c.rst)
    a = t.source('a')
    b = t.source('b')
    t.sink(t.MulAdd(a, b, a), 'o')
    t.sink(t.Mux(a > b, a / b, a - b), 'p')

    def g():
        t.set_source_pattern('a', r, 0, ((4, 2), (2, 8)))
        t.set_source('b', r, 3, 8, port=1)
        t.set_sink('o', q, 0, 8)
        t.set_sink('p', q, 16, 8)
        t.run()
        t.join()
    vthread.Thread(m, 'g', c.clk, c.rst, g).start()


# ---- plain streams and dataflow ---------------------------------------------------
def pst0(c):
    x = c.x = stream.Variable('xd', width=16)
    y = c.y = stream.Variable('yd', width=16)
    z = x * y + stream.ReduceAdd(x - y)
    z.output('zd')
    w = stream.Mux(x > y, x, y * 3)
    w.output('wd')
    c.m = stream.Stream(z, w).to_module('pstm')


def pst1(c):
    m = c.m = vg.Module('pst2')
    clk, rst = m.Input('CLK'), m.Input('RST')
    x = stream.Variable(m.Input('xx', 8), width=8)
    y = stream.Constant(3)
    (x * y).output(m.Output('zz', 8))
    vg2 = stream.Stream(module=m, clock=clk, reset=rst, no_hook=False)
    z = stream.MulAdd(x, x, y)
    z.output(m.Output('uu', 8))
    vg2.add(z)


def dfl0(c):
    m = _top(c, 'dflm')
    df = c.df = dataflow.DataflowManager(m, c.clk, c.rst)
    x = c.x = df.Var(m.Input('x', 16), valid=m.Input('xv'), ready=m.Output('xr')) if hasattr(df, 'Var') else \
        dataflow.Variable(m.Input('x', 16), valid=m.Input('xv'), ready=m.Output('xr'), width=16)
    y = c.y = dataflow.Variable(m.Input('y', 16), valid=m.Input('yv'), ready=m.Output('yr'), width=16)
    z = x * y + x
    z.output(m.Output('z', 16), valid=m.Output('zv'), ready=m.Input('zr'))
    df.add(z) if not hasattr(df, 'Var') else None


def dfl1(c):
    w = dataflow.Mux(c.x > c.y, c.x, dataflow.Iadd(c.y, initval=0) if hasattr(dataflow, 'Iadd') else c.y + 1)
    w.output(c.m.Output('w', 16), valid=c.m.Output('wv'), ready=c.m.Input('wr'))
    c.df.add(w)


def dft0(c):
    x = dataflow.Variable('x', width=8)
    y = dataflow.Variable('y', width=8)
    z = x * y - dataflow.Constant(3) * x
    z.output('z')
    c.m = dataflow.Dataflow(z).to_module('dftm')


def pip0(c):
    m = _top(c, 'pipm')
    df = c.df = vg.Pipeline(m, 'df', c.clk, c.rst)
    px = c.px = df.input(m.Input('x', 16), valid=m.Input('xv'), ready=m.Output('xr'))
    df(px + px.prev(1)).output(m.Output('y', 16), valid=m.Output('yv'), ready=m.Input('yr'))


def pip1(c):
    s = c.df.acc_add(c.px, initval=0)
    s.output(c.m.Output('s', 16), valid=c.m.Output('sv'), ready=c.m.Input('sr'))
    c.df.make_always()


# ---- types ----------------------------------------------------------------------
def fix0(c):
    m = _top(c, 'fixm')
    a = c.a = fixed.FixedInput(m, 'a', 16, 4)
    o = c.o = fixed.FixedOutputReg(m, 'o', 16, 6, initval=1.5)
    s = c.seq = vg.Seq(m, 'seq', c.clk, c.rst)
    s(o(a * fixed.FixedConst(2.5, 4) + 1))


def fix1(c):
    t = fixed.FixedTmpReg(c.m, 20, 3, initval=0)
    c.seq(t(c.a - c.o))
    u = fixed.reinterpret_cast_to_fixed(c.a, 2)
    w = c.m.OutputReg('w', 8, initval=0)
    c.seq.If(u > 3)(w(fixed.fixed_to_int(t, 3)))


def per0(c):
    m = _top(c, 'perm')
    u = c.u = vthread.AXISLiteRegister(m, 'reg', c.clk, c.rst, 32, length=4) if hasattr(vthread, 'AXISLiteRegister') else \
        vthread.AXISRegister(m, 'reg', c.clk, c.rst, 32, lite=True, length=4)

    def f():
        u.wait_flag(0, value=1, resetvalue=0)
        n = u.read(1)
        u.write(2, n + 1)
    vthread.Thread(m, 'f', c.clk, c.rst, f).start()


def per1(c):
    m, u = c.m, c.u
    x = vthread.AXIStreamIn(m, 'sin', c.clk, c.rst, 32)
    y = vthread.AXIStreamOut(m, 'sout', c.clk, c.rst, 32)
    r = vthread.RAM(m, 'r', c.clk, c.rst, 32, 5)

    def g():
        d, l = x.read()
        y.write(d + 1, l)
        x.dma_read(r, 0, 8)
        y.dma_write(r, 0, 8)
    vthread.Thread(m, 'g', c.clk, c.rst, g).start()


def mem0(c):
    m = _top(c, 'memm')
    axi.AxiMemoryModel(m, 'memory', c.clk, c.rst, memimg_name='img.out', memimg_datawidth=32, mem_addrwidth=8)


# ---- structure --------------------------------------------------------------------
def _sub(name, w):
    s = vg.Module(name)
    p = s.Parameter('W', w)
    clk, rst = s.Input('CLK'), s.Input('RST')
    d = s.Input('d', p)
    q = s.OutputReg('q', p, initval=0)
    sq = vg.Seq(s, 'seq', clk, rst)
    sq(q(d + 1))
    return s


def hie0(c):
    m = _top(c, 'hiem')
    s = c.s = _sub('child', 8)
    a = c.a = m.Input('a', 8)
    w = c.w = m.Wire('w', 8)
    m.Instance(s, 'u0', params=(('W', 8),), ports=(('CLK', c.clk), ('RST', c.rst), ('d', a), ('q', w)))
    i = m.Genvar('i')
    g = c.g = m.GenerateFor(i(0), i < 3, i(i + 1), 'lp')
    v = g.Wire('v', 8)
    g.Instance(s, 'ug', ports=dict(CLK=c.clk, RST=c.rst, d=a + i, q=v))
    f = m.Function('fn', 8)
    x = f.Input('x', 8)
    f.Body(f(x + 1))
    c.fn = f
    m.Output('y', 8).assign(f.call(w))


def hie1(c):
    m = c.m
    t = _sub('other', 4)
    n = vg.Module('mid')
    clk, rst = n.Input('CLK'), n.Input('RST')
    su = vg.Submodule(n, t, 'st', prefix='st_', arg_ports=(('CLK', clk), ('RST', rst)), as_wire=('d', 'q'))
    su2 = vg.Submodule(n, c.s, 'sc', prefix='sc_', arg_ports=(('CLK', clk), ('RST', rst)))
    sq = vg.Seq(n, 'seq', clk, rst)
    r = n.TmpReg(4, initval=0)
    sq(r(su['q'] + su2['q']))
    m.Instance(n, 'um', ports=(('CLK', c.clk), ('RST', c.rst)))
    gi = m.GenerateIf(vg.Int(1) == 1, 'br')
    gi.Wire('z', 3)
    gi.Else('bl').Wire('z', 4)


def hie2(c):
    m = c.m
    r = m.Reg('rr', 4, initval=0)
    st = m.TmpReg(3, initval=0)
    m.Always(vg.Posedge(c.clk))(
        vg.If(c.rst)(r(0), st(0)).Else(
            vg.Case(st)(vg.When(0)(st(1)), vg.When(1, 2)(r.inc()), vg.When()(st(0)))))
    m.TmpWire(8).assign(vg.Mux(r > 3, c.w, 0))
    m.Probe(r + 1) if hasattr(m, 'Probe') else None


SRC = """
module vsub #(parameter W = 4) (input CLK, input [W-1:0] a, output reg [W-1:0] b);
  localparam K = W - 1;
  genvar i;
  generate for (i = 0; i < W; i = i + 1) begin : lp
    wire t; assign t = a[i];
  end endgenerate
  always @(posedge CLK) begin if (a == 3) b <= a + K; else case (a) 1, 2: b <= 0; default: b <= b + 1; endcase end
endmodule
module vtop (input CLK, input [7:0] x, output [7:0] y);
  vsub #(.W(8)) u (.CLK(CLK), .a(x), .b(y));
endmodule
"""


def ver0(c):
    c.d = vg.from_verilog.read_verilog_module_str(SRC)
    c.m = c.d['vtop']


def ver1(c):
    c.m.Reg('extra', 3)
    c.m.Assign(c.m.Wire('w', 8)(c.m['x'] + 1))


def big0(c):
    thr0(c)
    s = vg.Module('wrapm')
    clk, rst = s.Input('CLK'), s.Input('RST')
    led = s.Output('led', 16)
    s.Instance(c.m, 'u0', ports=dict(CLK=clk, RST=rst, led=led))
    c.inner, c.m, c.clk, c.rst = c.m, s, clk, rst


def big1(c):
    f = vg.FSM(c.m, 'fsm', c.clk, c.rst)
    r = c.m.Reg('r', 3, initval=0)
    f(r.inc())
    f.goto_next()
    f.goto_init()
    d = c.inner
    k = vg.Seq(d, 'late', d['CLK'], d['RST'])
    k(d.TmpReg(4, initval=0).inc())


def ful0(c):
    m = _top(c, 'fulm')
    for k in range(3):
        x = stream.Variable(m.Input('x%d' % k, 8), width=8)
        y = stream.Variable(m.Input('y%d' % k, 8), width=8)
        s = stream.Stream(module=m, clock=c.clk, reset=c.rst)
        z = x * y + x
        z.output(m.Output('z%d' % k, 8))
        s.add(z)


DESIGNS = dict(seq=[seq0, seq1, seq2], fsm=[fsm0, fsm1, fsm2], thr=[thr0, thr1], dma=[dma0, dma1], str=[str0, str1],
               pst=[pst0], pst2=[pst1], dfl=[dfl0, dfl1], dft=[dft0], pip=[pip0, pip1], fix=[fix0, fix1],
               per=[per0, per1], mem=[mem0], hie=[hie0, hie1, hie2], ver=[ver0, ver1], big=[big0, big1], ful=[ful0])
