"""Which contracts and which bounded stand-in decide which property."""
PROPS = {}
def prop(id, **k): PROPS[id] = k

prop("C01", level="proof", mods=["direct"], verify=["direct"], bounded="c01", budget=12,
     bound="random machines up to 5x4, up to 300 steps, random call sequences",
     assumptions=["symbols and states are integers and the transition table is total (undefined cells behave as 1R-halt, as tm_from_quintuples builds them)",
                  "machines move left or right only (no stay moves)", "blank_init_symbol mode (display only) is not covered"])

prop("C02", level="proof", mods=["tape"], verify=["tape"], bounded="c02", budget=10,
     bound="random sequences of at most 24 moves/copies, at most 3 symbols",
     assumptions=["block counts are integers or infinity (symbolic counts used by the prover are covered by C05/C06)"])

prop("C19", level="proof", mods=["queues"], verify=["queues"], bounded="c19", budget=8,
     bound="random sequences of at most 14 operations, up to 5000 jobs", assumptions=["jobs are never None", "single-threaded use"])
prop("C20", level="proof", mods=["halting"], verify=["halting"], bounded="c20", budget=8,
     bound="random statuses, at most 8 states", assumptions=["last-visit times and states are non-negative integers", "protobuf fields behave as documented (range checks, oneof); hex/int(...,16) and pickle round-trip"])

prop("C12", level="proof", mods=["mathc"], verify=["mathc"], bounded="c12", budget=12,
     bound="gcd/lcm on [-40,40]^2, int_pow below 4000 and perfect powers below 10^10, prime_factor below 3000, carmichael below 200, exp_mod for moduli below 130, random larger values",
     assumptions=["Carmichael's exponential cycle theorem (b^(k+lambda(m)) = b^k mod m for k >= the largest prime exponent) is assumed mathematics; the code is proved to compute its formula and to apply it correctly",
                  "int_pow: that no smaller base is skipped depends on floating-point log/sqrt and is bounded only; that the returned pair satisfies m**k == n is proved",
                  "prec_mult/prec_add are approximations and not covered"])

prop("C14", level="proof", mods=["algebra"], verify=["algebra"], bounded="c14", budget=15,
     bound="random expression trees of depth at most 4 over 4 variables",
     assumptions=["coefficients and constants are integers in the proof (fractions and nested tower integers: bounded)", "division is proved for exact quotients only (fractions: bounded)",
                  "that equal polynomials always compare equal (canonical order of terms) is bounded; that expressions comparing equal are equal is proved"])

prop("C13", level="proof", deps=['C12'], mods=["expint"], verify=["expint"], extra=[["expeval"]], bounded="c13", budget=15,
     bound="random expression trees of depth at most 4 over bases 2, 3, 6, 10, compared with exact integers",
     assumptions=["exponents denote non-negative integers and obey these same contracts one level down (induction on the nesting depth)",
                  "Math.exp_mod, gcd, lcm, int_pow are used through the contracts proved for C12", "sorting is a permutation",
                  "sign, order and evaluation are proved exact for numbers that are evaluated (height 0); beyond that they are floating-point estimates and nothing is claimed", "the negative of an evaluated number is evaluated (the same exponents)"])

prop("C15", level="proof", deps=['C17', 'C19'], mods=["enumc"], verify=["enumc"], bounded="c15", budget=12,
     bound="complete expansion trees up to 2x2, 3x2, 2x3 (sampled nodes) compared with a brute-force enumeration, random partial machines up to 5x4",
     assumptions=["Enumerator.run and Enumerator.save (time limits, printing) are assumed; that write_tm and the TM_Record constructor keep the machine is proved under C17", "the work queue obeys the contracts proved for C19"])
prop("C16", level="proof", deps=['C01'], mods=["perm"], verify=["perm"], bounded="c16", budget=12,
     bound="random machines up to 4x4 compared step by step (at most 200 steps) with their converted forms; all renamings of small machines",
     assumptions=["the step-by-step correspondence of runs follows from the renaming lemma by induction on steps (the induction itself is the standard one)", "that equivalent machines get the same normal form is bounded; that every normal form is a renaming of its input is proved for to_TNF and LNF.permute", "Direct simulator is used through an arbitrary-state abstraction (any state, any symbol)"])
prop("C17", level="proof", mods=["codec"], verify=["codec"], bounded="c17", budget=10,
     bound="random machines up to 12 states and 10 symbols through every encoding and back",
     assumptions=["protobuf scalar and bytes fields store what is assigned", "characters are modelled by their code points; int(), chr(), ord() on single characters as in CPython"])
prop("C18", level="proof", deps=['C17', 'C20'], mods=["recfile"], verify=["recfile"], bounded="c18", budget=12,
     bound="random record sequences of at most 12 records, every truncation point of small files, integers up to 2**5000",
     assumptions=["a file is a sequence of bytes or lines with exact reads and writes (no I/O errors, no concurrent writers)", "protobuf SerializeToString/ParseFromString round-trip a message", "big-integer fields: proved under C20"])

prop("C03", level="proof", mods=["macro"], verify=["macro"], bounded="c03", budget=12,
     bound="random base machines up to 6x4 (and one family with hundreds of states), blocks up to 8 cells, two nested blocks, back symbol, all loop limits, compared with an independent segment run of up to 60000 steps",
     assumptions=["symbols, states and directions are values compared by equality (identified with integers)", "each level is proved against the machine one level down; exactness of a stack follows by induction on the number of levels (base steps add up in the segment-run definition)",
                  "machines move left or right (the back-symbol machine asserts this)", "hash/equality of symbols and states used as cache keys are consistent"])

prop("C04", level="proof", deps=['C02', 'C03'], mods=["simul"], verify=["simul"], bounded="c04", budget=12,
     bound="random and known base machines under direct, block, back-symbol and nested stacks, compared with an independent step-by-step run of the base machine",
     assumptions=["tape operations as proved under C02, macro transitions as proved under C03", "the proof system is off (C06 covers the on case)",
                  "machines move left or right", "exactness of a stack follows by induction on the levels, each level by the proved segment-embedding lemma",
                  "the step counter is computed (compute_steps on)"])

prop("C05", level="proof", deps=['C12', 'C13', 'C14'], mods=["rules", "algebra"], verify=["rules"], bounded="c05", budget=14,
     bound="random constant-difference, limited, linear, exponential and general rules over at most 6 blocks with counts up to 60 (and huge counts), compared with repeating the elementary change one application at a time",
     assumptions=["constant-difference rules are proved for integer (and infinite) block counts; symbolic counts met inside recursive proofs are bounded", "linear rules: the functions of Rule_Func are proved one by one (repetition counts, repeated change, minima) and assumed of the functions of a rule where it is applied; that the rule object carries the functions of its result tape (try_gen, constructors) and Pow_Func are bounded",
                  "algebra of expressions as proved under C14, huge integers as proved under C13", "a constant-difference rule's per-application step polynomial is arbitrary; series_sum is proved for the exponents it accepts (0..3)"])
prop("C06", level="proof", deps=['C02', 'C03', 'C04', 'C05', 'C14'], mods=["prover"], verify=["prover"], bounded="c06", budget=25,
     extra=[["proverule"], ["rulegen"]],
     bound="70 machines and random ones, under plain, limited, recursive, linear and exponential rule options and block sizes, every reported configuration compared with an independent step-by-step run of up to 200000 steps",
     assumptions=["prove_rule (without limited rules): a loop of the simulator on symbolic counts is taken to be real, for the counts it is evaluated at, when the block read was tested non-empty for all variables at least 0 (or no block is empty there) and the requirements of the rules used hold (C02 to C05 on numbers; the same code runs on expressions); equal stripped configurations have the same blocks; counts and requirements without a variable are positive (the tape's invariant, checked when met)", "every rule prove_rule returns on the explored machines is re-checked at random block counts at and above its minimum (bounded; the only check of limited rules' touched offsets and of the rounding of Pow_Func.compute_min's logarithms, which are taken to be exact)", "slopes of linear counts, bases and factors of exponential counts are positive (a count would be negative for large arguments otherwise)", "max_shift: an expression in one variable that is not c*x + k and is bounded below from x = 0 on grows with x", "apply_rule as under C05; tape operations as under C02; macro transitions as under C03",
                  "limited rules' store is bounded only"])

prop("C07", level="proof", deps=['C01', 'C20'], mods=["linrec", "wlr"], verify=["linrec", "wlr"], bounded="c07", budget=12,
     bound="random and known machines up to 5x4, budgets up to 1000 steps, with and without the search for the earliest start, compared with an independent run",
     assumptions=["Direct_Simulator as proved under C01 (the simulator is exactly the run; the tape stores every visited cell and blanks outside)", "writing the status as proved under C20",
                  "that the recurrence found at one start also holds at every later start is proved for one step (lemma Mono) and iterated by the standard induction"])

prop("C08", level="proof", deps=['C20'], mods=["reveng", "wre"], verify=["reveng", "wre"], bounded="c08", budget=8,
     bound="a third of all 2-state 2-symbol machines and random machines up to 5x4, each condemned machine run for up to 20000 steps",
     assumptions=["machines move left or right", "the criterion excludes the cell at every time by induction on time; base and step are proved (lemma Unreachable)"])
prop("C09", level="proof", deps=['C20'], mods=["backtrack", "wbt"], verify=["backtrack", "wbt"], bounded="c09", budget=8,
     bound="a quarter of all 2-state 2-symbol machines and random machines up to 5x4, depths up to 30, widths up to 40, each condemned machine run for up to 20000 steps",
     assumptions=["machines move left or right; the table lists states in range", "copy.deepcopy copies", "an exception is no verdict"])

prop("C10", level="proof", deps=['C02', 'C03', 'C04', 'C20'], mods=["ctl", "ctlstart", "wctl"], verify=["ctl", "ctlstart", "wctl"], bounded="c10", budget=12,
     bound="random machines up to 7x4 that halt within 2000 steps (among them machines that write a word and then check it), all four variants, blocks of at most 3 cells, all offsets, run-in 0 to 200 loops, with and without back symbol",
     assumptions=["macro transitions as proved under C03, the run-in simulation and its tape as proved under C04 and C02", "symbols and states are values compared by equality (identified with integers)", "CTL_Table: a missing key reads as fresh empty sets", "test_CTL is called with a block of at least one cell and an offset inside it (proved for CTL_Filter)", "the tape beyond the blocks of the run-in is blank (the bottom block is the endless blank one: C02)"])

prop("C11", level="proof", deps=['C03', 'C20'], mods=["cps", "wcps"], verify=["cps", "wcps"], bounded="c11", budget=12,
     bound="random machines up to 7x4 that halt within 2000 steps, blocks of at most 4 cells, windows of 2 to 4 blocks, tight and wide limits, single sizes and the two size scans",
     assumptions=["runs inside a window as proved for sim_limited under C03", "windows are at least two blocks wide (main asserts it, the scans keep it)", "machines move left or right", "words are equal when their lengths and symbols are; sets of blocks and configurations follow __eq__ (proved) with a consistent __hash__",
                  "that a covered configuration stays covered at every later time follows from the proved step (lemma Cover) by induction"])

prop("C21", level="proof", deps=['C20', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10'], mods=["pipeline", "blockf"], verify=["pipeline", "blockf"], bounded="c21", budget=25,
     bound="random machines (with start-up states, sweeping, self-checking) and known champions up to 14 states under random options, every recorded status compared with an independent run of up to 20000 steps that recognises in-place and shifted recurrence",
     assumptions=["each filter and the simulator as proved under C03, C04, C06, C07, C08, C10; the status functions as proved under C20", "a simulator that counts steps keeps counting unless a linear rule is applied (Simulator.step with the proof system: C06)",
                  "the block finder's parameters are not negative", "when the step count is switched off (also by --exp-linear-rules) the recorded step count is 0 by convention and not judged", "running out of time raises AlarmException"])

prop("C24", level="proof", mods=["mpiq"], verify=["mpiq"], bounded="c24", budget=12,
     bound="random schedules of a simulated MPI: 2 to 8 processes, up to 900 jobs, delayed delivery, synchronous and buffered sends, clocks of several paces",
     assumptions=["MPI channels are reliable and ordered: once a worker's request for work has been received, the messages it sent earlier are visible to a probe", "one master (rank 0) running run_master and workers on every other rank that finish a job, pushing its successors, before they ask for the next", "jobs are never None; pickling copies them",
                  "that both sides' contracts add up to the statement is a lemma over one arbitrary worker and the sum of the others (induction over the interleaving is the standard one)", "that waiting workers are served in the end (liveness) is bounded only"])

CPP_ASSUME = ["the C++ is read through clang's syntax tree, translated mechanically on every run (cppfront); the translated text is also run and compared with the compiled program (bounded)",
              "int and long are mathematical integers", "std::vector, std::string, std::stack behave as the standard says", "output to cout/cerr, destructors and delete are dropped"]
prop("C22", level="proof", mods=["cpplr", "cppsim"], verify=["cpplr", "cppsim"], bounded="c22", budget=12,
     bound="the compiled program (g++) on random and known machines up to 5x4, budgets up to 1500 steps, and the programs direct_sim, direct_sim_all, lin_recur, compared with an independent run",
     assumptions=CPP_ASSUME + ["the table is total with states and symbols in range", "the recurrence found repeats for ever by the cycle lemma proved for C07"])
prop("C23", level="proof", deps=["C22"], mods=["cppenum", "cpptext", "cppfilter"], verify=["cppenum", "cpptext", "cppfilter"], bounded="c23", budget=14,
     bound="the compiled enumerators on blank machines up to 26x10 and random partial machines up to 5x5 (every machine and its book-keeping compared), lr_enum, lr_enum_continue and lb_enum on whole trees of small sizes, texts of machines up to 25x9",
     assumptions=CPP_ASSUME + ["enumeration starts from machines whose open cells are undefined (---); an explicit halting transition counts as open, as num_halts counts it", "the hereditary name (progress display) is not covered", "a file is a sequence of lines; output streams keep what is written, in order; compressed output (Boost) is not covered", "the programs' argument handling is bounded only"])

NOT_APPLICABLE = {}
