#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the JSON stays valid)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))

p("C01","Direct simulation reproduces the Turing machine exactly, step by step",
 "After any number of steps, the uncompressed Python simulator's state, head position, step counter, halted flag and the symbol in every tape cell (visited or not, read back by position) are exactly those of the mathematical machine started on a blank tape; when it halts, the score is the number of non-blank cells and the reported halting state and symbol are the ones that were being read. Copies of a simulator or tape never influence one another, and a halted simulator never changes again.",
 ["inputs","programs","histories"],"every machine with left/right moves, every number of steps, every interleaving of step/seek/copy/read/write-at-position calls",
 "test_Direct_Simulator samples a few champion machines and only compares final step counts and scores; tape growth at either end, position bookkeeping and aliasing between copies are unbounded in the history.",
 ["Code/Direct_Simulator.py"],
 [("lazily grown deque with index/position pair","Code/Direct_Simulator.py:DirectTape"),("table look-up, write, move, halt test","Code/Direct_Simulator.py:DirectSimulator.step")],
 [("tape/index/position","deque cell i holds tape position i-index+position","Code/Direct_Simulator.py:DirectTape")],
 ["DirectTape.read_pos","DirectSimulator.state/halted/step_num/halt_score"])

p("C02","Run-length compressed tape always denotes the exact two-way infinite tape",
 "Every single move and every chain move on the compressed tape changes exactly the cells an uncompressed tape would change, on both half tapes and arbitrarily far from the head, without ever losing, inventing or merging unequal symbols, for any repetition counts including infinite blank ends. Block counts stay positive, copies share no mutable block with their source, and the non-blank count of the tape equals the sum of its cells' values.",
 ["inputs","histories"],"every reachable compressed tape (any number of blocks, any counts), every symbol, direction and move sequence",
 "Tests run some machines end to end; they never observe the denoted tape and sample a finite set of block shapes (emptied block, merge with neighbour, merge into infinite end, turn-around on the same side).",
 ["Code/Macro/Tape.py"],
 [("push/pop with merge and INF guard","Code/Macro/Tape.py:Chain_Tape.apply_single_move, apply_chain_move"),("deep copy","Code/Macro/Tape.py:Chain_Tape.copy")],
 [("tape[0], tape[1]","stacks of (symbol, count); bottom block infinite, top next to head","Code/Macro/Tape.py:Chain_Tape")],
 ["Chain_Tape after each move","get_nonzeros"])

p("C03","Macro-machine transitions are exact abbreviations of base-machine runs",
 "Whenever a block or back-symbol macro machine (alone or stacked) returns a transition, running the underlying machine on that tape segment from the same state, position and direction produces exactly the returned symbols, state and exit direction in exactly the returned number of base steps, and the reported last visit time of each state is right. It reports halting or an undefined transition only if the underlying machine does that there, reports an infinite repeat only if the underlying machine never leaves the segment and never halts, and giving up is the only other outcome.",
 ["inputs","programs","configurations"],"every base machine, block size, offset, segment contents, entry side and loop limit",
 "Tests use a handful of machines and block sizes; the repeat detector only wakes up after 128 inner steps and the exact boundary between repeat, give-up, halt and run-off is not exercised.",
 ["Code/Macro/Turing_Machine.py"],
 [("segment simulation with Brent repeat detection","Code/Macro/Turing_Machine.py:sim_limited"),("entry position and symbol re-packing","Code/Macro/Turing_Machine.py:Block_Macro_Machine.eval_trans, Backsymbol_Macro_Machine.eval_trans")],
 [("old_config/next_config_save","checkpointed configuration for repeat detection","Code/Macro/Turing_Machine.py:sim_limited")],
 ["get_trans_object"])

p("C04","Accelerated simulation is step-exact and its verdicts are true",
 "With any macro-machine stack and the proof system off, after every loop the compressed simulator's step counter, unrolled tape, state and head position are exactly those of the base machine at that step; a halt or undefined verdict comes with the exact step count and score, and an infinite verdict is only given for machines that never halt. While it keeps running, each state's recorded last visit time is exact.",
 ["inputs","programs","configurations","histories"],"every machine, block size, offset, back-symbol setting and number of loops",
 "test_Macro_Simulator compares only final results of a list of machines; intermediate configurations, the step split over chain and single moves and infinite verdicts for arbitrary machines are not observed.",
 ["Code/Macro/Simulator.py","Code/Macro/Tape.py","Code/Macro/Turing_Machine.py"],
 [("step: chain move / single move / verdict dispatch","Code/Macro/Simulator.py:Simulator.step"),("cut-offs","Code/Macro/Simulator.py:seek, loop_seek")],
 [("step_num, states_last_seen","base steps done and last visit of every base state","Code/Macro/Simulator.py:Simulator")],
 ["Simulator.step_num/op_state/get_nonzeros after each loop"])

p("C05","Applying a proven rule equals performing it that many times",
 "Applying a transition rule to a tape changes each block count and the step counter exactly as repeating the rule's elementary change for the maximal number of times its validity condition allows (general rules: at most the configured number of repetitions at a time), for any block counts and any kind of rule (constant-difference, limited, linear, exponential or general), unless it refuses loudly because a number is beyond its reach. It declares the machine infinite only if the rule can then be repeated forever, and it leaves tape and counters untouched when the rule does not apply.",
 ["inputs","configurations"],"every rule shape, every vector of initial block counts, every step polynomial",
 "test_Proof_System checks a few hand-made rules; the arithmetic of repetition counts, bounds and step sums is over unbounded integers and polynomial coefficients.",
 ["Code/Macro/Proof_System.py","Code/Macro/Rule_Func.py"],
 [("maximal repetitions","Code/Macro/Rule_Func.py:Subtract_Func.max_reps"),("closed-form step sums","Code/Macro/Proof_System.py:series_sum"),("rule application","Code/Macro/Proof_System.py:apply_*_rule")],
 [("initial_tape/diff_tape/min_val","validity condition and effect of a rule","Code/Macro/Proof_System.py:Diff_Rule")],
 ["Prover_Result returned by log_and_apply"])

p("C06","Simulation with automatic rule proving never contradicts plain simulation",
 "With the proof system on (including limited, recursive, linear, exponential and Collatz options), every configuration the accelerated simulator reports lies on the machine's true trajectory at exactly the reported step, any halting verdict has the true step count and score, and no machine that halts is ever reported as infinite. Every rule the prover records is true for all block counts at or above its stated minimum.",
 ["inputs","programs","configurations"],"every machine, option set and number of loops",
 "A wrong rule only shows on the machine and tape counts that trigger it; the tests cover a fixed list of machines and mostly compare final numbers.",
 ["Code/Macro/Proof_System.py","Code/Macro/Simulator.py"],
 [("rule search and generalised replay","Code/Macro/Proof_System.py:Proof_System.prove_rule, log_and_apply"),("rule application","Code/Macro/Proof_System.py:apply_rule")],
 [("min_val","smallest value each generalised block reached during the proof","Code/Macro/Proof_System.py:prove_rule")],
 ["Simulator.tape/step_num after each loop"])

p("C07","Lin-recurrence detection is sound and its parameters are true",
 "If the Lin-recurrence detector reports success for a machine then the machine never halts, and from the reported start step on its configuration recurs every reported period with the reported head offset; with minimal-start search the reported start step is the earliest one for that period. If it reports a halt, the machine halts at exactly that step with that score, and a halt within the step budget is always reported; otherwise it reports nothing, after simulating fewer steps than twice the budget.",
 ["inputs","programs"],"every machine and every step budget",
 "test_Lin_Recur checks a list of known machines; soundness quantifies over all machines and depends on comparing unbounded half tapes only over the region the head visited.",
 ["Code/Lin_Recur_Detect.py","Code/Direct_Simulator.py","Code/Halting_Lib.py"],
 [("checkpoint + visited range + half-tape comparison","Code/Lin_Recur_Detect.py:lin_detect_not_min"),("earliest start by bisection","Code/Lin_Recur_Detect.py:period_search, check_recur")],
 [("most_left_pos/most_right_pos","range visited since the checkpoint","Code/Lin_Recur_Detect.py:lin_detect_not_min")],
 ["LinRecurFilterResult","BBStatus"])

p("C08","Reverse-engineering decider only condemns machines that cannot halt",
 "If the reverse-engineering decider says a machine is infinite, then started on a blank tape that machine never takes any of its halting or undefined transitions.",
 ["inputs","programs"],"every machine of every size",
 "No test covers it; a wrong answer silently removes a halting machine from an enumeration.",
 ["Code/Reverse_Engineer_Filter.py"],
 [("last transition before halt cannot leave the halting symbol","Code/Reverse_Engineer_Filter.py:cannot_reach_halt")],
 [], ["is_infinite result","BBStatus"])

p("C09","Backtracking decider only condemns machines that cannot halt",
 "If backtracking from the halting configurations reports that halting is impossible, then the machine started on a blank tape never halts, for every depth and width limit.",
 ["inputs","programs"],"every machine, every backtracking depth and configuration limit",
 "The existing backtracking tests do not even run here; soundness needs all predecessors of every partial configuration to be considered.",
 ["Code/Backtracking_Filter.py"],
 [("predecessor computation","Code/Backtracking_Filter.py:backtrack_single_halt, get_prevs")],
 [], ["BacktrackResult","BBStatus"])

p("C10","Closed-tape-language deciders only condemn machines that cannot halt",
 "If any of the closed-tape-language deciders (all four variants, any block size, offset and run-in time) reports success for a machine, the machine started on a blank tape never halts. The set of tapes it built contains the start configuration it was given and is closed under the machine's moves.",
 ["inputs","programs","configurations"],"every machine, variant, block size, offset and cutoff",
 "Only end-to-end samples exist; a missing closure case is invisible unless a halting machine happens to hit it.",
 ["Code/CTL1.py","Code/CTL2.py","Code/CTL3.py","Code/CTL4.py","Code/CTL_Filter.py"],
 [("closure loop over the accepted tape classes","Code/CTL1.py:CTL"),("initial set from the simulated tape","Code/CTL1.py:test_CTL")],
 [], ["test_CTL / CTL_Filter verdict"])

p("C11","Closed-position-set decider only condemns machines that cannot halt",
 "If the closed-position-set decider reports success for a machine with some block and window size, the machine started on a blank tape never halts: its set of windowed configurations contains the blank start and is closed under every step with every continuation it allows at the window edges.",
 ["inputs","programs","configurations"],"every machine, block size, window size and limit",
 "No test in the stable suite runs it; a dropped continuation makes it unsound only for particular machines.",
 ["Code/CPS.py","Code/CPS_Filter.py"],
 [("work-list closure with edge continuation sets","Code/CPS.py:ClosedGraphSim"),("filter","Code/CPS.py:filter")],
 [], ["CPS result","BBStatus"])

p("C12","Number-theory helpers compute the exact mathematical functions",
 "For all integers in their domains, the greatest common divisor, least common multiple, perfect-power decomposition, prime factorisation, Carmichael function and huge-exponent modular power return exactly the mathematical value, and an unsupported input raises an error instead of returning a wrong number.",
 ["inputs"],"all integers (gcd/lcm), all positive moduli with small prime factors, all non-negative exponents",
 "test_Math samples small ranges; the modular exponent reduction has an edge at exponents around the largest prime multiplicity.",
 ["Code/Math.py"],
 [("Euclid loop","Code/Math.py:gcd"),("exponent reduction","Code/Math.py:exp_mod, carmichael")],
 [], ["function results"])

p("C13","Huge-exponent integers behave as exact integers",
 "Every expression built from tower-exponent integers with addition, subtraction, multiplication, negation, exact division and powers denotes exactly the same integer as ordinary arithmetic, its remainder modulo any supported modulus is exact, and ordering and sign tests agree with the true integers whenever the values are small enough to be evaluated.",
 ["inputs"],"every nesting of terms, coefficients, exponents, divisors and moduli",
 "test_Exp_Int samples fixed values; merging and cancelling of like terms and divisor normalisation are over unbounded coefficients.",
 ["Code/Exp_Int.py","Code/Math.py"],
 [("term merging and normalisation","Code/Exp_Int.py:ExpInt"),("remainder","Code/Exp_Int.py:ExpTerm.mod, ExpInt.__mod__")],
 [], ["ExpInt operators"])

p("C14","Algebraic expressions denote exact polynomials under every substitution",
 "Adding, subtracting, multiplying, dividing by constants, negating and substituting into symbolic expressions commutes with evaluation for every assignment of the variables, equality of expressions means equality as polynomials, a comparison that answers true holds for every non-negative assignment of the variables, and an expression is reported as linear in one variable (or as variable plus constant) only if it is exactly that.",
 ["inputs"],"every pair of expressions and every assignment",
 "test_Algebraic_Expression checks a few identities; the proof system's soundness rests on all of them.",
 ["Code/Algebraic_Expression.py"],
 [("term list normalisation","Code/Algebraic_Expression.py:Expression"),("substitution","Code/Algebraic_Expression.py:substitute")],
 [], ["Expression operators"])

p("C15","Tree-normal-form enumeration is complete and emits every machine exactly once",
 "Expanding an undefined transition produces every transition that tree normal form allows (any used-or-next state, used-or-next symbol, both directions, first move to the right), each exactly once, with the rest of the table and the parent untouched; the last undefined transition stays a halt unless non-halting machines are requested. A complete enumeration run emits every machine taken from the queue exactly once and drops no child, so every machine's behaviour is represented in the output.",
 ["inputs","programs","histories"],"every partial machine, state/symbol count and option",
 "test_Enumerate compares one small golden enumeration; bounds on next state/symbol only matter for particular partial tables.",
 ["Code/TM_Enum.py","Code/Enumerate.py","Code/Work_Queue.py"],
 [("child generation","Code/TM_Enum.py:TM_Enum.enum_children"),("queue/emit loop","Code/Enumerate.py:Enumerator.continue_enum, add_result")],
 [], ["children of a TM_Enum","records written by Enumerate"])

p("C16","Normal forms and relabelings preserve behaviour",
 "Converting a machine to tree normal form or lexical normal form, permuting its states and symbols, or changing its start state yields a machine whose run is the original run with states, symbols and possibly directions renamed, step by step up to the moment it takes a halting or undefined transition (which normal forms standardise to 1RZ), so whether and at which step it halts is unchanged. Machines that differ only by such a renaming get the same lexical normal form and, when the first transition is defined and all states and symbols are met within the step limit, the same tree normal form.",
 ["inputs","programs"],"every machine and every permutation",
 "test_TNF uses a few fixed machines.",
 ["Code/TNF.py","Code/LNF.py","Code/Permute.py"],
 [("table permutation","Code/TNF.py:permute_table, to_TNF"),("brute-force normal form","Code/LNF.py:brute_lnf")],
 [], ["ttable_str of the converted machine"])

p("C17","Machine encodings round-trip without loss",
 "Writing any machine to the standard text notation, the packed binary encoding or the list encoding and reading it back gives the identical transition table, including undefined and halting transitions, for every number of states and symbols the encoding supports. Machines outside what an encoding supports are never silently changed.",
 ["inputs","programs"],"every machine of every supported size",
 "test_Turing_Machine parses a few strings; the byte packing and the choice between encodings depend on the sizes and on which cells are undefined.",
 ["Code/IO/TM_Record.py","Code/IO/StdText.py","Code/Macro/Turing_Machine.py"],
 [("bit packing","Code/IO/TM_Record.py:pack_trans_ints, unpack_tm"),("text parser/printer","Code/IO/StdText.py, Code/Macro/Turing_Machine.py:to_ttable_str")],
 [], ["parse_tm/ttable_str","TM_Record"])

p("C18","Record files preserve every machine and result in order",
 "Writing any sequence of machine records (with any statuses, results and arbitrarily large integers) to a record file and reading it back, by streaming, skipping or random index, yields exactly the same records in the same order; a file cut off in the middle yields exactly the complete records before the cut, then stops or raises an error. Arbitrary big integers survive storage in a result field unchanged.",
 ["inputs","histories","crash_points"],"every record sequence, every truncation point, every integer",
 "No test covers the stream framing, skipping or truncation.",
 ["Code/IO/Proto.py","Code/IO/General.py","Code/IO/StdText.py","Code/Halting_Lib.py"],
 [("length-prefixed framing","Code/IO/Proto.py:Writer, Reader"),("big integer field","Code/Halting_Lib.py:set_big_int, get_big_int")],
 [], ["Reader iteration"])

p("C19","Work queues neither lose nor duplicate nor reorder jobs",
 "For every sequence of pushes and pops, the in-process work queues hand out each pushed job exactly once, in last-in-first-out or first-in-first-out order respectively, and report emptiness exactly when nothing is left.",
 ["histories"],"every interleaving of push, bulk push, pop and statistics calls",
 "Only implicitly exercised by the enumeration test in one order.",
 ["Code/Work_Queue.py"],
 [("list / deque discipline","Code/Work_Queue.py:Basic_LIFO_Work_Queue, Basic_FIFO_Work_Queue")],
 [], ["pop_job results"])

p("C20","Recorded halting and quasihalting status is consistent and maximal",
 "Marking a machine as halting, non-halting or infinitely recurring stores exactly the given facts: for an infinite recurrence the quasihalt state is one that is not revisited, its time is one more than the latest last visit among all such states, and no quasihalt is reported exactly when every visited state recurs; unknown inputs leave the question undecided.",
 ["inputs"],"every set of recurring states and every map of last-visit times, integers of any size",
 "test_Halting_Lib only checks number formatting.",
 ["Code/Halting_Lib.py"],
 [("latest non-recurring state","Code/Halting_Lib.py:set_inf_recur"),("status setters","Code/Halting_Lib.py:set_halting, set_not_halting")],
 [], ["BBStatus fields"])

p("C21","The decider pipeline never records a false verdict",
 "Running a machine through the complete pipeline of filters and accelerated simulation, with any options, records a halt only with the machine's true score and halting transition and, whenever steps are counted, its true step count, records non-halting only for machines that never halt, records quasihalting facts only when they are true, and otherwise leaves the machine undecided.",
 ["inputs","programs","configurations"],"every machine and option combination",
 "Tests run a fixed list of machines through the pipeline.",
 ["Code/Macro_Simulator.py","Code/Halting_Lib.py","Code/Macro/Block_Finder.py"],
 [("pipeline and result transfer","Code/Macro_Simulator.py:run_options, simulate_machine")],
 [], ["TM_Record.proto.status"])

p("C22","C++ direct simulation and Lin-recurrence match the mathematical machine",
 "The C++ simulator's state, head position, step counter and tape equal those of the mathematical machine after any number of steps, and the C++ Lin-recurrence detector reports recurrence only for machines that never halt, with true start step, period and offset, and reports halts at the true step.",
 ["inputs","programs","histories"],"every machine and step budget",
 "There are no C++ tests at all.",
 ["cpp/src/direct_sim.cpp","cpp/src/lin_recur.cpp","cpp/src/simulator.cpp"],
 [("growing array tape","cpp/src/simulator.cpp"),("Brent checkpoints","cpp/src/lin_recur.cpp")],
 [], ["C++ API"])

p("C23","C++ enumeration expands exactly the normal-form children; texts round-trip",
 "The C++ enumerator's expansion of an undefined transition produces exactly the children allowed by tree normal form, each once, with correct bookkeeping of used states, symbols and remaining halts, and machines written to text and read back are unchanged.",
 ["inputs","programs"],"every partial machine",
 "There are no C++ tests at all.",
 ["cpp/src/enumerator.cpp","cpp/src/turing_machine.cpp"],
 [("expansion loop","cpp/src/enumerator.cpp"),("text reader/writer","cpp/src/turing_machine.cpp")],
 [], ["C++ API"])

p("C24","Distributed work queue neither loses nor duplicates jobs",
 "For every schedule of workers and coordinator, the message-passing work queue hands each job to exactly one worker and terminates only when no work is left anywhere.",
 ["schedules","histories"],"every message interleaving and number of workers",
 "Its test needs a running message-passing environment and samples one schedule.",
 ["Code/MPI_Work_Queue.py"],
 [("coordinator protocol","Code/MPI_Work_Queue.py")],
 [], ["MPI_Work_Queue"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
