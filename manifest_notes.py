COMMON = (' Trusts TLC, iverilog as executor of the emitted Verilog, and the small harness that '
          'turns simulator output into traces.')
NOTES = {
 'C01': ('TLA+ history semantics of Seq (SeqSem), refinement of the delay-register mechanism model '
         'checked by TLC, TLC trace conformance of simulated designs (TLC-enumerated and random)',
         'All two-call attribute combinations (sampled in quick, all in thorough) plus random programs, '
         'random input/reset schedules; every register of every cycle is predicted by the spec.' + COMMON),
 'C02': ('TLA+ history semantics of FSM (FsmSem), refinement model checked by TLC, TLC trace '
         'conformance of simulated machines in case/if/module form',
         'Random machines and inputs; the state and every register are predicted each cycle.' + COMMON),
 'C07': ('TLA+ FIFO spec, TLC exhaustive model check, TLC-generated schedules replayed on the '
         'emitted hardware, trace conformance and linearizability checking by TLC',
         'Exhaustive over all request schedules of length 6 for the main configuration and sampled '
         'schedules for the others; thread histories sampled.' + COMMON),
 'C13': ('TLA+ model of the stream engine (source and sink address engines, delay-balanced paths, delayed sink settings, stalls, '
         'overlapping runs) refining atomic runs on memory, checked by TLC (StrmMC), and a TLA+ semantics of stream runs (Flow, '
         'StrmTrace) against which TLC checks the memories and FIFOs left by random thread programs on random stream graphs',
         'Random graphs, strided, multi-dimensional and multi-pattern accesses, FIFO, immediate and empty sources and sinks, '
         'conditions, parameters, one to three runs in join and overlap form, random stalls. All sources of a run deliver the '
         'same number of elements. FIFO sinks whose condition selects fewer elements than asked for are a recorded finding.' + COMMON),
 'C14': ('The same TLA+ specifications as C13 (StrmMC, Flow, StrmTrace) with the state of reductions, counters, pulses, arg-max/min, '
         'predicates, ring buffers, scratchpads and memory reads and writes carried from element to element and run to run',
         'Random graphs with size, interval, enable, reset, offset and validity options over several runs with stalls; operators that '
         'keep their contents across runs (predicates, previous values, ring buffers, scratchpads) are specified to do so.' + COMMON),
 'C15': ('TLA+ model of elastic pipelines with forks and joins checked by TLC for every schedule (FlowMC), and a TLA+ token '
         'semantics of the dataflow, pipeline and stream layers (Flow: operators, accumulators, delays, tables) against which TLC '
         'checks recorded port traces of random graphs under random valid/ready schedules',
         'Random graphs of up to 12 nodes, 8 to 20 tokens, every handshake form. Forked graphs under independent schedules and '
         'dividers with top-bit operands are recorded findings.' + COMMON),
 'C17': ('TLA+ cycle semantics of Verilog modules (Vlog over VExpr: processes, blocking and non-blocking assignment, case, '
         'loops, settling), laws model-checked over all small statement triples (VlogMC); random source designs, their re-emitted '
         'text, a wrapper around the modules read and stubs are simulated and validated by TLC; interfaces and the fixed point '
         'of emission are compared',
         'Random designs of 1 to 4 modules with parameters, instances (positional, named, unconnected), generate constructs, '
         'functions, memories, case/casex, loops (for, while); 16 cycles. Wrappers use copy_* and connect_* with prefixes and postfixes. Constructs the parser library does not accept are out of scope '
         '(task calls, +: selects, named-block declarations, casez).' + COMMON),
 'C16': ('TLA+ semantics of Verilog-2005 expressions over bit vectors (BV, VExpr; BV model-checked against '
         'integers), every operator nested in every operator plus random trees simulated and validated by TLC',
         'Operator-in-operator pairs exhaustive at 2-bit operands (sampled rows in quick); random trees up to '
         'depth 4 and 100 bits; unspecified (x) values are skipped.' + COMMON),
 'C03': ('TLA+ big-step semantics of the thread subset (ThreadSem), laws model-checked over control skeletons by '
         'TLC, TLC-built and random programs simulated and their printed histories validated by TLC',
         'Control skeletons (two nested loops with every break/continue/return placement) sampled from the TLC-'
         'enumerated set, random programs with calls of every argument form, seven ways of starting the thread.' + COMMON),

 'C04': ('TLA+ specification of child threads and pools (ThreadCtl), model-checked by TLC (handshake refinement '
         'and liveness), TLC trace conformance of printed histories of simulated parent/child systems',
         'Systems of one parent and up to several children or pool members with random run/join/done/ret/reset '
         'scripts and delays; answers must come within a fixed number of cycles.' + COMMON),
 'C05': ('TLA+ mutex specification, register/id mechanism checked by TLC to refine it, linearizability and '
         'progress of recorded concurrent histories decided by TLC',
         'Random scripts of 2 to 4 threads on Mutex, Lock and Shared with random alignment.' + COMMON),
 'C06': ('TLA+ barrier specification, counter/pulse mechanism checked by TLC to refine it, TLC trace '
         'conformance of recorded barrier histories (safety and bounded progress)',
         'Random arrival alignment of 1 to 7 threads at barriers of 1 to 5 parties over several rounds, also '
         'with fewer or more threads than parties.' + COMMON),
 'C08': ('TLA+ RAM specification, banked mechanism checked by TLC to be one flat RAM, TLC cycle-by-cycle '
         'conformance of simulated RAM ports and linearizability of recorded thread/RTL histories',
         'Random port mixes (external, connected, read_rtl/write_rtl users, bank views), widths 1 to 100, all RAM '
         'classes; conflicting same-cycle users of one port are excluded.' + COMMON),

 'C24': ('TLA+ AXI protocol rules and byte memory (Axi), model-checked by TLC with an early-data master, TLC '
         'conformance of all recorded bus traffic of every memory model class',
         'Random compliant masters (gaps, early data, random ready), ids, widths, images, several ports, thread-'
         'side accesses; aligned full-width INCR bursts only.' + COMMON),

 'C09': ('TLA+ AXI protocol rules (Axi), model-checked by TLC, TLC conformance of the recorded bus traffic of AXIM, '
         'AXIMVerify, AXIMLite and AXIMLiteVerify masters under random slaves',
         'Random programs of single accesses and DMA transfers of every form, random ready/valid/response timing, ids, '
         'skid buffer depths, request queue depths, widths 8 to 128; the slave is compliant.' + COMMON),
 'C10': ('TLA+ specification of DMA operations as atomic copies (Dma), burst-splitting and width-packing mechanism '
         'checked by TLC to refine it, TLC conformance of final memory and RAM contents of random programs',
         'Random programs over RAM kinds, widths, modes, strides, asynchronous and blocking forms; the whole memory and '
         'all RAM words are compared.' + COMMON),

 'C11': ('TLA+ specification of a register file shared by bus and threads (AxiReg), same-cycle mechanism and start/finish '
         'protocol checked by TLC, linearizability of recorded bus and thread histories and AXI conformance decided by TLC',
         'Random bus traffic (bursts, ids, gaps, ready patterns) and thread scripts for AXISRegister and AXISLiteRegister, '
         '1 to 16 registers of 8 to 64 bits.' + COMMON),

 'C22': ('TLA+ specification of an arithmetic pipe over bit vectors (Pipe), restoring-divider stages checked by TLC to '
         'refine it, TLC conformance of every recorded cycle of the generated units',
         'All operand pairs for operand widths up to 6 bits together, random ones up to 33 bits, every sign combination, '
         'depths 2 to 8, random update/enable/reset schedules.' + COMMON),
 'C19': ('TLA+ elaboration semantics of parameterised hierarchies with generate scopes (Hier), checked by TLC (flattening and '
         'renaming preserve meaning), TLC conformance of simulated outputs of random hierarchies, emitted and resolved',
         'Random hierarchies of 3 to 7 modules (up to 120 leaf copies) with shared names, stub, string, Verilog-read, wrapped, '
         'FSM/Seq/function/task leaves, nested generate for/if, three parameter sets each.' + COMMON),
 'C20': ('TLA+ contract of sessions (Emit: what the text of a design may depend on), checked by TLC against an implementation model with '
         'global and deferred numbering, TLC conformance of random sessions of the real generator run in processes with different hash seeds',
         'Sessions of 2 to 5 designs over 17 staged descriptions and the test and example designs of the repository.' + COMMON),
 'C21': ('TLA+ contract of the name space of a module and its generate scopes (Names), checked by TLC for all histories of 3 '
         '(thorough: 4) definitions, TLC conformance of random histories of definitions, copies, temporaries and look-ups run '
         'on the real Module class, and elaboration of what is emitted',
         'Histories of 8 to 30 operations over up to 5 nested scopes and 8 colliding names.' + COMMON),
 'C23': ('TLA+ contracts of a UART transmitter and receiver (Uart), composed with a sampling receiver of any phase and '
         'checked by TLC, TLC conformance of the recorded line, ports and thread events',
         'Bit times 3 to 434 cycles, random bytes and gaps, ports and threads, one or two senders.' + COMMON),
}
NA = {
 'C12': 'No check was built: the family applies (the AXI-Stream ports are the same kind of machine as the AXI masters of C08), '
        'but the time went to the other parts. The AXI-Stream ports are not covered.',
 'C18': 'The check could not be made sound: what width a product, quotient or shift of fixed-point expressions is computed in is '
        'the context rule of Verilog, which the existing text tests pin, so "the raw bits of the exactly defined result" holds '
        'only for operands that happen to fit. The raw expressions underneath are covered by C16.',
}
