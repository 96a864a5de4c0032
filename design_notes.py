TABLE = {
 'C01': ('SeqSem', 'the delay-register/counter mechanism refines the history semantics ("value = last enabled update, condition of d cycles ago, for keep cycles, eager or lazy values") for all two-call programs of all attributes',
         'TLC-enumerated two-call attribute combinations and random Seq programs (conditions, Delay, Keep, EagerVal, LazyCond, Prev, last_cond, resets, as_module) simulated under random input and reset schedules; every register of every cycle'),
 'C02': ('FsmSem', 'state register + delayed-action mechanism refines the run semantics',
         'random machines (jumps, conditions, Delay/Keep, When, State, body of other states, reset) in case, if and as_module form; state and registers of every cycle'),
 'C03': ('ThreadSem', 'compilation of control flow into states (jump/patch model) computes what the structured program computes',
         'TLC-enumerated small programs and random Python functions (loops, break/continue/else, calls, recursion-free nesting, lists, tuples, slices, comparisons chains, print, assertions); outputs and final variables against the big-step semantics'),
 'C04': ('ThreadCtl', 'the one-hot run/done/join/reset handshake realises fork/join for all interleavings of two parents and two children',
         'random parents and children (run, join, done, reset, ret, ThreadPool, run with arguments, nested) with event traces'),
 'C05': ('Mutex', 'arbiter with simultaneous requests: mutual exclusion, no lost unlock, no lost try_lock',
         'random threads with lock/try_lock/unlock/acquire/release, lock-order traces'),
 'C06': ('Barrier', 'counter mechanism releases all parties together, repeatedly', 'random numbers of parties, rounds and delays'),
 'C07': ('Fifo, FifoHist', 'circular buffer with same-cycle enqueue/dequeue refines a queue; TLC generates all short operation histories (FifoGen)',
         'generated and random RTL and thread users of FIFO, FixedFIFO, external ports, widths and depths; data, empty/full/almost flags and counts each cycle'),
 'C08': ('Ram, RamHist', 'read-first/write-through port and bank selection refine a memory', 'SyncRAM, AsyncRAM, FixedRAM, MultibankRAM, ports, enables, RTL and thread access'),
 'C09': ('Axi', 'protocol automaton of the five channels; request splitting never crosses 4 KB or exceeds 256 beats (burst model)',
         'recorded traffic of AXIM, AXIMLite, AXIMVerify masters against random compliant slaves'),
 'C10': ('Dma', 'burst splitting, width packing and bank interleaving refine an atomic copy for all small sizes/addresses',
         'random programs of DMA calls (RAM, multibank, packed, block, FIFO forms; sync/async; strides; all width ratios); whole memory and RAM contents'),
 'C11': ('AxiReg', 'same-cycle priority of bus, thread and flag mechanism is linearizable up to the recorded race',
         'histories of bus and thread operations, linearized by TLC (search over orders), plus Axi conformance of the slave'),
 'C13': ('StrmMC, Flow, StrmTrace', 'source and sink engines that never see each other, an accumulator balanced against a slower path, delayed sink settings: after every stall and thread schedule, joined or overlapping, memory is that of atomic runs (three mutants of the model - delay line one short, no reset of the accumulator, unbalanced path - are refuted)',
         'random stream programs (graphs over all operators, all access patterns, several runs, stalls) run on the emitted hardware; TLC runs the same program on memories and compares every word after every run'),
 'C14': ('StrmMC, Flow, StrmTrace', 'as C13, with the accumulator and its run start', 'as C13 with accumulators (size, interval, enable, reset, valid), counters, pulses, arg-max/min, predicates, ring buffers, scratchpads, memory reads and scattered writes'),
 'C15': ('Flow, FlowMC', 'elastic stages with forks and joins: in order, nothing lost, stable, live, for every schedule, for trees and for lock-step environments; the faulty ready rule of the code is shown to lose tokens elsewhere and its repair not to',
         'random graphs of the three layers with random widths, signs, handshake ports and schedules; TLC computes the value of every token and follows the ports cycle by cycle'),
 'C17': ('Vlog, VExpr, BV', 'laws of statements over all triples of 20 small statements and all valuations (VlogMC): blocks flatten, if = case with the default anywhere, case width, loops unroll, last non-blocking assignment wins, processes commute, wires are never stale', 'random Verilog sources; the source, its re-emission, a wrapper module and stubs simulated under random inputs and checked cycle by cycle; modules, ports, parameters compared; emission is a fixed point'),
 'C16': ('VExpr, BV', 'bit-vector operator laws (BVMC): widths, signs, context extension', 'random operator trees in Python form, with and without optimisation, evaluated by the semantics of Verilog expressions over the intended tree'),
 'C19': ('Hier', 'flattening, renaming and default/override parameter binding preserve the meaning of a design (all small hierarchies)',
         'random hierarchies, every form of instance, parameters and generate scopes; emitted and resolved designs are simulated with three parameter sets'),
 'C20': ('Emit', 'numbering model (global, per-design and deferred counters) satisfies the session contract after reset and on re-emission',
         'sessions in subprocesses with different hash seeds: emit twice, emit after other designs, reset, build again; texts compared as abstract values by TLC'),
 'C21': ('Names', 'all histories of 3 (4) definitions keep one object per name', 'random definition/copy/lookup histories on the real Module and generate scopes, and elaboration of the result'),
 'C22': ('Pipe', 'restoring-divider and multiplier stages refine the arithmetic pipe under update/enable/reset', 'all operands up to 6 bits, random wide ones; every cycle'),
 'C23': ('Uart', 'sender composed with a receiver of any sampling phase delivers every byte', 'recorded lines, ports and thread events'),
 'C24': ('Axi', 'outstanding queues of a memory slave preserve order and contents', 'random masters against AxiMemoryModel, multiport and serial models, thread accesses and memory images'),
}
LIM = ''
CATCH = {}
