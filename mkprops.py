# Source of properties.jsonl (run: python3 mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','Sequential logic acts exactly as its conditions and delays say',
 "Registers assigned through a Seq change, on every clock edge, exactly as the added statements say: a statement acts when its If/Elif/Else condition held in the cycle it was issued, Delay(n)/Keep(n) move or repeat that action by exactly n cycles (LazyCond judges the condition and a plain value at the time of the action, EagerVal captures the value when issued), and Prev(v,n) is v as it was n cycles (or n enabled cycles) before. When several statements hit one register in the same cycle, the one added last wins among equal delays and the shorter delay wins otherwise. While reset is asserted every driven register with an initial value holds that value.",
 ['programs','inputs','schedules'],'every composition of If/Elif/Else/Delay/Keep/LazyCond/EagerVal/Prev statements, every input sequence and every placement of reset',
 'The tests check a handful of fixed designs, mostly by comparing emitted text; interactions of delays, conditions, else-chains, overlapping writes and resets are never executed against an independent semantics.',
 ['veriloggen/seq/seq.py','veriloggen/seq/reset_visitor.py','veriloggen/seq/subst_visitor.py'],
 [('statement ordering by delay','Seq.make_code'),('delayed condition/value pipelines','Seq._add_delayed_cond, Seq._add_delayed_subst'),('reset list','Seq.make_reset, ResetVisitor')],
 [('next_kwargs/last_cond','builder state between If/Else calls','Seq')],['registers sampled each clock of the simulated design'])

p('C02','An FSM moves and acts only as its states, jumps and delays say',
 "A hardware FSM built with FSM is in exactly one state per cycle: it starts and restarts on reset in the initial state, follows the jumps declared for the current state (the last declared jump whose condition holds, else-destinations included) and otherwise stays. Statements attached to a state act exactly in the cycles that state is active and their condition holds, shifted by their Delay/Keep; every other register keeps its value. Building the machine with case, with if, or as a separate module gives the same cycle-by-cycle behaviour.",
 ['programs','inputs','schedules'],'every state graph, jump/condition set, statement schedule, input sequence and reset placement',
 'Tests cover about twenty fixed machines, mostly as expected text; they never compare the three code generators or run delayed actions across state changes.',
 ['veriloggen/fsm/fsm.py'],
 [('jump emission','FSM._go, FSM._to_state_assign'),('delayed state pipeline','FSM._add_delayed_state, FSM._get_delayed_substs'),('code generators','FSM.make_always, FSM.make_module, FSM.make_case, FSM.make_if')],
 [('state','current state register','FSM.state')],['state register and driven registers each clock'])

p('C03','A thread computes what its Python function says',
 "Hardware synthesized from a Python function by Thread performs the same observable effects (prints, variable and object writes, return values) in the same order and with the same values as sequential execution of that function, for the supported subset: integer assignment including tuple/chained/augmented forms, arithmetic, comparison chains and boolean operators, conditional expressions, if/elif/else, while, for over range and over lists, break, continue, nested and early return, and calls with positional, keyword, default and variable arguments. Values are 32-bit signed integers unless a width is given. Local variables of one call never leak into another call or caller.",
 ['programs','inputs'],'every program of the supported subset whose values fit the data width, every argument and input value',
 'Each test is one hand-written function; nestings of loops, breaks, returns and calls are combinatorial and no test has an independent interpreter.',
 ['veriloggen/thread/compiler.py','veriloggen/thread/scope.py','veriloggen/thread/thread.py','veriloggen/thread/operator.py'],
 [('control-flow lowering','CompileVisitor.visit_If/visit_While/visit_For/visit_Return'),('unresolved jump resolution','ScopeFrameList.getUnresolvedBreak/Continue/Return'),('scoping','ScopeFrameList')],
 [],['$display output and output registers of the simulated design'])

p('C04','Threads fork, join, reset and return as requested',
 "A child thread runs its function exactly once per run() issued while it is startable, with the argument values given at that run(); join() lets the caller continue only after the child finished that run, and then without unbounded delay; done() is true exactly when the child has finished, ret() is the value it returned, and reset() makes a finished thread startable again. The same holds for each member of a thread pool selected by thread id, independently of the others.",
 ['programs','schedules','histories'],'every program of run/join/done/reset calls over several threads or pool members, every relative timing',
 'Tests run two or three fixed scripts with one timing each; the start, called and join conditions depend on the cycle in which parent and child meet.',
 ['veriloggen/thread/thread.py','veriloggen/thread/pool.py'],
 [('start handshake','Thread._synthesize_run_fsm'),('join/done flags','Thread.join, Thread.done, ThreadPool.join'),('reset edge','Thread.reset, ThreadPool.reset')],
 [],['event prints of parent and children with cycle numbers'])

p('C05','A mutex is held by at most one thread and is never lost',
 "At any cycle at most one thread is between a successful lock()/acquire()/true try_lock() and its unlock()/release(). try_lock() answers true exactly when the caller got the lock and never blocks; unlock by a non-owner has no effect; whenever the mutex is free and some thread waits in lock(), some waiting thread obtains it. Updates of a Shared value made under its lock are never lost.",
 ['schedules','programs'],'every number of contending threads, every interleaving of lock/try_lock/unlock and critical sections',
 'Simulation of a fixed program visits one interleaving; simultaneous requests, re-locking and try_lock races are not enumerated.',
 ['veriloggen/thread/ttypes.py'],
 [('lock register and owner id','Mutex.lock, Mutex.try_lock, Mutex.unlock'),('shared variable','Shared.write')],
 [('lock_reg/lock_id','ownership','Mutex')],['per-cycle critical-section markers of every thread'])

p('C06','A barrier releases all its parties together and only together',
 "With a barrier of N parties, no thread leaves wait() before N threads have called wait() in the same round, all N leave once the N-th has arrived, and the barrier can be reused for any number of rounds without a thread overtaking a round or being left behind.",
 ['schedules','histories'],'every N, every arrival order and timing, every number of rounds',
 'One test with one arrival pattern; releases depend on single-cycle pulses whose alignment with arrivals is timing dependent.',
 ['veriloggen/thread/ttypes.py'],[('arrival counter and done pulse','Barrier.__init__, Barrier.wait')],
 [('barrier_count','arrivals this round','Barrier')],['arrival/leave prints with cycle numbers'])

p('C07','FIFOs deliver every item once and in order',
 "A FIFO yields exactly the accepted items, in the order accepted, each once: an enqueue is ignored only when the FIFO is full and a dequeue only when it is empty, and empty, full, almost_empty, almost_full and the item count always agree with the items held (capacity 2^addrwidth - 1). enq/deq block until they succeed; try_enq/try_deq never block and truthfully report whether the item was transferred, for synchronous and asynchronous read FIFOs, with one producing and one consuming thread at a time (or several under the FIFO's lock).",
 ['inputs','schedules','histories'],'every sequence of enq/deq (including simultaneous, on full and on empty), every depth/width, every thread timing',
 'Tests push one data pattern through; simultaneous operations at the boundaries, wrap-around and all flag combinations are unvisited.',
 ['veriloggen/types/fifo.py','veriloggen/thread/fifo.py'],
 [('head/tail pointers and flags','mkFifoDefinition'),('blocking and try operations','FIFO.enq_rtl, FIFO.deq_rtl, FIFO.try_enq, FIFO.try_deq'),('entry counter','FIFO.__init__')],
 [],['FIFO ports each cycle; results of thread operations'])

p('C08','RAMs return the last value written, per port and bank',
 "A RAM read returns the value most recently written to that address through any port (or its initial value), one cycle after an enabled request; a port with its enable low keeps its read data and memory unchanged; writes change exactly the addressed word. A multi-bank RAM behaves as one RAM whose word a lives in bank a mod banks, read_bank/write_bank address one bank directly, and thread read()/write() and RTL-connected ports see the same contents.",
 ['inputs','histories','configurations'],'every interleaving of reads and writes on all ports, every address/bank, every size and initial contents',
 'Tests write a ramp and read it back once; same-cycle conflicts, port independence, enable gating and bank decoding for every bank are not enumerated.',
 ['veriloggen/types/ram.py','veriloggen/thread/ram.py'],
 [('port processes','mkRAMDefinition'),('bank selection','MultibankRAM.read_rtl/write_rtl/read_bank/write_bank/connect_rtl'),('interface muxing','util.add_mux, util.add_enable_cond')],
 [],['RAM ports each cycle; values returned to threads'])

p('C09','AXI master traffic always obeys the AXI4 protocol',
 "Whatever the slave's ready/valid timing, every AXI channel driven by an AXI master keeps VALID and its payload stable until accepted, every burst has the announced number of data beats with LAST on exactly the final one, no burst exceeds 256 beats or crosses a 4KB address boundary, write data beats are sent only for announced bursts in announcement order, and each request eventually completes when the slave keeps answering. (A direction the design neither uses nor disables is not driven.)",
 ['schedules','inputs'],'every back-pressure schedule on each channel, every address/size/data width',
 'Tests use one memory model with one timing; handshake stability and burst splitting at boundaries under arbitrary stalls are not checked by any assertion.',
 ['veriloggen/types/axi.py','veriloggen/thread/axim.py'],
 [('channel registers','AxiMasterWriteAddress/WriteData/ReadAddress'),('burst splitting','AXIM._synthesize_read_fsm / _synthesize_write_fsm')],
 [],['AXI master ports each cycle'])

p('C10','DMA moves exactly the requested words',
 "After dma_read/dma_write (and their bank, block, packed, broadcast, strided and narrow/wide bus variants) complete, the destination holds exactly the requested source words at the requested places and every other word of RAM and memory is unchanged. Asynchronous transfers give the same result once waited for, and single-word read/write act as one-word transfers. A DMA address means the bus word that holds it; single-word addresses are bus-word aligned.",
 ['inputs','schedules','configurations'],'every address, size, stride, bank count, bus/RAM width ratio, burst split and memory timing',
 'Tests check a few sizes at friendly addresses and never look for corruption outside the transferred region.',
 ['veriloggen/thread/axim.py','veriloggen/thread/ram.py','veriloggen/types/axi.py'],
 [('DMA state machines','AXIM._dma_read/_dma_write'),('RAM burst engines','RAM.read_burst/write_burst and multibank variants')],
 [],['memory image and RAM contents before and after'])

p('C11','AXI slave registers keep and report what was written',
 "A register-file AXI slave answers every write with one response and every read with exactly the requested beats: a read returns the last value written to that register by the bus or by the thread side, writes touch only the addressed register, flags and wait operations on the thread side see bus writes exactly once in order, for any master timing and for both the full and the Lite interface (bus writes use full strobes).",
 ['schedules','inputs','histories'],'every interleaving of bus reads/writes, thread reads/writes and ready/valid stalls',
 'Tests run one start/finish handshake; channel-order variations and concurrent thread/bus accesses are not explored.',
 ['veriloggen/thread/axis.py','veriloggen/types/axi.py'],
 [('register file FSM','AXISLiteRegister/AXISRegister'),('slave channels','AxiSlave*, AxiLiteSlave*')],[],['AXI slave ports each cycle'])

p('C12','AXI-Stream ports transfer data in order with correct framing',
 "Data written to or read from an AXI-Stream port (single words, RAM or FIFO transfers) crosses the port exactly once, in order, with TLAST on exactly the final beat of each transfer that requests it; TVALID and its data never change while waiting for TREADY, under every handshake timing.",
 ['schedules','inputs'],'every tvalid/tready timing, transfer size, width ratio and sequence of transfers',
 'Tests connect one always-willing peer; stalls on either side at each beat are not enumerated.',
 ['veriloggen/thread/axistreamin.py','veriloggen/thread/axistreamout.py','veriloggen/types/axi.py'],
 [('stream out register','AxiStreamOutData.write_data'),('transfer FSMs','AXIStreamIn/AXIStreamOut')],[],['AXI-Stream ports each cycle'])

p('C13','A stream applies its dataflow graph to every element',
 "Running a stream writes to each sink, in order and at the requested addresses only, the value of the sink's dataflow expression on the corresponding source elements and parameters, for every operator, source/sink access pattern (strided, multi-dimensional, FIFO, empty) and run; elements never mix between positions, runs or streams. A sink with a condition takes the selected elements, at most as many as its size. The result does not depend on operator latencies or on stall cycles. (Recorded deviation: a FIFO sink whose condition selects fewer elements than its size.)",
 ['programs','inputs','schedules'],'every dataflow graph, access pattern, data, number of runs and stall schedule',
 'Each test is one graph with ramp data; path balancing across operators of different latency and stalls at every cycle are unexplored.',
 ['veriloggen/thread/stream.py','veriloggen/stream/stypes.py','veriloggen/stream/scheduler.py','veriloggen/stream/allocator.py'],
 [('latency balancing','ASAPScheduler'),('source/sink address engines','Stream._synthesize_set_source/_synthesize_set_sink'),('stall propagation','oready/senable')],[],['RAM contents after join'])

p('C14','Stateful stream operators accumulate exactly over their window',
 "Reductions, counters, argument-max/min, predicates/registers, ring buffers, scratchpads and stream RAM/FIFO accesses consume each accepted element exactly once and in order, emit their result or valid flag at exactly the elements their size/interval/enable/reset say, and reductions, counters and pulses start every run from their initial state, while registers (previous values, predicates), ring buffers and scratchpads keep their contents. Stalls never change what they compute.",
 ['programs','inputs','schedules','histories'],'every operator configuration, data, run sequence and stall schedule',
 'Tests use one size and one run or two identical runs; windows that straddle runs, enables and stalls interact with internal valid/ready bits.',
 ['veriloggen/stream/stypes.py','veriloggen/thread/stream.py'],
 [('accumulator update and valid','_Accumulator._implement'),('reset per run','Stream.run reduce_reset')],[],['RAM contents after join'])

p('C15','Ready/valid pipelines neither lose, duplicate nor reorder tokens',
 "A dataflow pipeline with valid/ready handshakes (stream, dataflow and pipeline layers) emits, for every schedule of input valids and output readies, exactly the sequence of results of applying its expression to the accepted inputs in order, and holds its outputs stable while they are not accepted. Independent inputs are paired by position. (Recorded deviations: graphs in which a forked source is joined with another one, under schedules that treat the branches differently; dataflow dividers with top-bit operands.)",
 ['schedules','programs','inputs'],'every expression graph, every input-valid and output-ready schedule',
 'Tests drive one or two fixed schedules; bubbles and back-pressure patterns are exponential.',
 ['veriloggen/stream/stypes.py','veriloggen/stream/stream.py','veriloggen/dataflow/dtypes.py','veriloggen/dataflow/dataflow.py','veriloggen/pipeline/pipeline.py'],
 [('valid/ready propagation','_implement of every operator'),('handshake','Stream.implement, DataflowManager, Pipeline')],[],['ports each cycle'])

p('C16','Operators emit Verilog that means the same expression',
 "The Verilog text emitted for an expression or statement built from Python operators and helper functions has, under the IEEE-1364 rules for precedence, width and sign, exactly the value of the expression tree that was built, for every operand value and width. Constant optimisation never changes the value.",
 ['programs','inputs'],'every expression tree over all operators, slices, concatenations, literals, widths and signs, every operand value',
 'Tests compare text for single operators; parenthesisation and constant folding of nested trees are combinatorial.',
 ['veriloggen/core/vtypes.py','veriloggen/verilog/to_verilog.py','veriloggen/optimizer/optimizer.py'],
 [('operator overloading','_Numeric'),('AST emission','VerilogModuleVisitor/VerilogBindVisitor'),('folding','try_optimize')],[],['values of wires driven by the expression'])

p('C17','Reading Verilog back preserves the design',
 "Reading Verilog source into modules and emitting it again yields a design with the same modules, ports and parameters and the same cycle-by-cycle outputs for every input sequence, for the constructs the reader accepts; reading what was emitted is a fixed point.",
 ['programs','inputs'],'every design in the accepted language, every input sequence',
 'Tests compare text of a few small modules; equivalence of behaviour is never executed.',
 ['veriloggen/verilog/from_verilog.py','veriloggen/verilog/to_verilog.py'],
 [('reader','VerilogReadVisitor'),('writer','to_verilog')],[],['ports of original and re-emitted design each cycle'])

p('C18','Fixed-point values keep their numeric meaning',
 "Fixed-point constants, variables and operations (conversion to and from int/float, add, subtract, multiply, divide, shift, compare, assignment between different point positions, saturation and rounding helpers) produce the raw bits of the exactly defined fixed-point result, for every operand, point position, width and sign that fits.",
 ['inputs','configurations'],'every operand value, width, sign and pair of point positions',
 'Tests check a few decimals with one point position; mixed points, negative values and rounding boundaries are not enumerated.',
 ['veriloggen/types/fixed.py','veriloggen/types/saturate.py','veriloggen/thread/fixed.py'],
 [('point alignment','adjust, shift_left/right'),('operators','_FixedBase')],[],['raw register values'])

p('C19','Hierarchy, parameters and generate structures elaborate faithfully',
 "Instances connect each named port and parameter to what was given (by name or position, through copies, stubs, submodules, connect_ports/connect_params and nested modules), parameter values given at instantiation govern widths and behaviour, generate-for/if produce exactly the selected copies, and parameter resolution gives the same behaviour as the unresolved design.",
 ['programs','configurations','inputs'],'every module hierarchy, parameter assignment, generate bound and input value',
 'Tests compare text of one hierarchy each; combinations of parameters, generates and copied ports are not executed.',
 ['veriloggen/core/module.py','veriloggen/core/submodule.py','veriloggen/resolver/resolver.py','veriloggen/core/rename_visitor.py'],
 [('instance construction','Instance'),('copy helpers','Module.copy_ports, connect_ports'),('resolver','Resolver')],[],['outputs of the elaborated design'])

p('C20','Emission is deterministic and does not disturb the design',
 "Emitting Verilog from the same description always gives the same text: a second to_verilog of a module, emission after building or emitting other modules, and rebuilding after reset() all reproduce it, and inspecting or simulating a module never changes what it emits.",
 ['histories'],'every history of building, emitting, resetting and simulating designs',
 'Every test builds one design in a fresh state and emits it once.',
 ['veriloggen/core/module.py','veriloggen/__init__.py','veriloggen/verilog/to_verilog.py'],
 [('hook resolution','Module.resolve_hook'),('temporary counters','reset')],[],['emitted text'])

p('C21','Names in a module are unique and resolve to one object',
 "Defining a signal, parameter, instance, function or other named object under a name already used in the same module is rejected and leaves the module as it was (a port and the wire or register that implements it share one name; copying a port or parameter replaces one of the same kind and name); automatically named objects never collide with any name already defined, and look-ups by name return the object defined under that name.",
 ['histories'],'every history of definitions, temporaries, look-ups and rejected definitions in one or more modules',
 'Two tests redefine one name; collisions between automatic names and user names, kinds and generate scopes are not explored.',
 ['veriloggen/core/module.py'],[('definition checks','Module.check_existing_identifier, is_reg/is_io...'),('tmp counters','Module.get_tmp')],[],['exceptions and look-up results'])

p('C22','Multipliers, multiply-adders and dividers are exact pipelines',
 "The generated multiplier, multiply-add, divider and remainder units deliver the exact arithmetic result for every operand tuple (division by zero excepted) of the configured widths and signs, each result exactly the announced number of cycles after its operands, one per accepted operand pair even when they follow back to back, are stalled or separated by gaps.",
 ['inputs','schedules','configurations'],'every operand pair, width, sign, pipeline depth and enable schedule',
 'Tests multiply a few small numbers with one width.',
 ['veriloggen/types/mul.py','veriloggen/stream/mul.py','veriloggen/stream/div.py','veriloggen/stream/madd.py','veriloggen/dataflow/mul.py','veriloggen/dataflow/div.py'],
 [('pipelines','mkMultiplier, mkDivider')],[],['core ports each cycle'])

p('C23','A UART delivers every byte it is given',
 "Every byte sent through a UART transmitter appears on the line as one start bit, eight data bits LSB first and a stop bit of the configured duration, and a receiver on that line with the same bit time returns exactly the same bytes in order, for back-to-back and spaced bytes (bit times of at least three clock cycles).",
 ['inputs','schedules','configurations'],'every byte sequence, gap and bit time',
 'One test with one message.',
 ['veriloggen/thread/uart.py'],[('shift FSMs','mkUartTx, mkUartRx')],[],['serial line each cycle'])

p('C24','The AXI memory model is a faithful memory',
 "The simulated AXI memory returns, for every accepted read burst, the bytes most recently written to those addresses (or the memory image), applies exactly the strobed bytes of accepted write beats, responds once per burst in order, and does so for every burst length, address and master timing, on each port of the multi-port models.",
 ['schedules','inputs','histories'],'every interleaving of bursts on every port, strobes, lengths and stalls',
 'Tests use it only through the DMA engine with full strobes.',
 ['veriloggen/types/axi.py'],[('read/write FSMs','AxiMemoryModel._make_fsm')],[],['AXI slave ports each cycle'])
for x in P: print(json.dumps(x))
