#!/usr/bin/env python3
"""cppmut.py: a few dozen small changes to cpp/src; which are noticed by the proof and by the bounded check"""
import subprocess, shutil, os, sys, tempfile
M = [("C22", "simulator.cpp", "index_start_ += unit_size_;", ""), ("C22", "simulator.cpp", "index_ >= tape_.size()", "index_ > tape_.size()"), ("C22", "simulator.cpp", "if (index_ < 0) {", "if (index_ < -1) {"), ("C22", "simulator.cpp", "step_num_ < step_goal", "step_num_ <= step_goal"),
     ("C22", "simulator.cpp", "last_symbol_ = tape_.read();", "last_symbol_ = tape_.read(0);"), ("C22", "simulator.cpp", "0 <= index && index < tape_.size()", "0 < index && index < tape_.size()"), ("C22", "simulator.cpp", "tape_.insert(tape_.begin(), unit_size_, BlankSymbol);\n    index_ += unit_size_;", "tape_.insert(tape_.begin(), unit_size_, tape_.back());\n    index_ += unit_size_;"),
     ("C22", "lin_recur.cpp", "tape1.in_range(pos1) || tape2.in_range(pos2)", "tape1.in_range(pos1) && tape2.in_range(pos2)"), ("C22", "lin_recur.cpp", "pos <= most_right_pos", "pos < most_right_pos"), ("C22", "lin_recur.cpp", "most_left_pos = std::min(most_left_pos, sim.tape().position());", "if (sim.step_num() % 2 == 0) most_left_pos = std::min(most_left_pos, sim.tape().position());"), ("C22", "lin_recur.cpp", "sim.tape(), most_left_pos + offset", "sim.tape(), init_pos + offset"),
     ("C22", "lin_recur.cpp", "if (sim.state() == init_state) {", "{"), ("C22", "lin_recur.cpp", "const long period = sim.step_num() - init_step_num;", "const long period = sim.step_num();"), ("C22", "lin_recur.h", "long steps_run;", "int steps_run;"),
     ("C23", "turing_machine.cpp", "num_halts_(old_tm.num_halts_ - 1)", "num_halts_(old_tm.num_halts_)"), ("C23", "turing_machine.cpp", "std::min(num_states_ - 1, next_trans.state + 1)", "std::min(num_states_ - 1, next_trans.state)"), ("C23", "turing_machine.cpp", "max_next_symbol_ = std::max(old_tm.max_next_symbol_,", "max_next_symbol_ = std::max(old_tm.max_next_state_,"), ("C23", "turing_machine.cpp", "if (trans.state < 0) {\n        num_halts", "if (trans.undecided) {\n        num_halts"),
     ("C23", "turing_machine.cpp", "out_state_char = 'Z';", "out_state_char = 'H';"), ("C23", "turing_machine.cpp", '" \\n\\t,#|"', '" \\n\\t,#"'), ("C23", "turing_machine.cpp", "trans.symbol <= 9", "trans.symbol <= 7"), ("C23", "turing_machine.cpp", "for (long i = line_num; i > 1; i -= 1)", "for (long i = line_num; i > 0; i -= 1)"), ("C23", "turing_machine.cpp", "ASSERT(tm.num_states() < 26);", "ASSERT(tm.num_states() < 20);"),
     ("C23", "enumerator.cpp", "tm.num_halts() > 1", "tm.num_halts() >= 1"), ("C23", "enumerator.cpp", "next_move == +1 || tm.next_move_left_ok()", "next_move == +1 || next_state > 0"), ("C23", "enumerator.cpp", "next_symbol <= tm.max_next_symbol()", "next_symbol < tm.num_symbols()"), ("C23", "enumerator.cpp", "if (result.reached_undecided) {", "if (result.reached_undecided && tm->num_halts() > 1) {"),
     ("C23", "lin_recur_enumerator.cpp", "} else if (result.is_lin_recurrent) {", "} else if (result.is_lin_recurrent && result.lr_period < 30) {"), ("C23", "lin_recur_enumerator.cpp", '<< result.lr_offset << " <"', '<< std::abs(result.lr_offset) << " <"'), ("C23", "lin_recur_enumerator.cpp", "WriteTuringMachine(tm, &out_unknown_stream_);", "if (!only_unknown) WriteTuringMachine(tm, &out_unknown_stream_);"),
     ("C23", "lazy_beaver_enumerator.cpp", "num_tms_halt_ += 1;\n    if (steps", "if (steps"), ("C23", "lazy_beaver_enumerator.cpp", "for (long i = 1;; ++i)", "for (long i = 2;; ++i)"), ("C23", "lazy_beaver_enumerator.cpp", "if (steps_realized_.count(sim.step_num()) == 0) {", "if (steps_realized_.count(sim.step_num()) == 0 && sim.step_num() > 1) {")]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); d = tempfile.mkdtemp(prefix="cppmut"); r = d + "/r"
try:
    for i, (p, f, a, b) in enumerate(M):
        if len(sys.argv) > 1 and str(i) not in sys.argv[1:]: continue
        shutil.rmtree(r, ignore_errors=True); os.makedirs(r + "/cpp"); shutil.copytree("/repo/cpp/src", r + "/cpp/src"); shutil.copytree("/repo/Code", r + "/Code", ignore=shutil.ignore_patterns("__pycache__")); q = r + "/cpp/src/" + f; t = open(q).read()
        if a not in t: print(i, "NO MATCH", f, a); continue
        open(q, "w").write(t.replace(a, b, 1)); out = []
        for x in ("--no-bounded", "--no-proof"):
            e = subprocess.run(["python3-vt", "check.py", p, "--tier", "quick", x], cwd=V, env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True); out.append({0: "quiet", 1: "ALARM"}.get(e.returncode, "error %d" % e.returncode))
            if x == "--no-bounded": w = [l for l in e.stdout.splitlines() if "not discharged" in l or "outside" in l]
        print(i, p, f, repr(b[:50]), "proof:", out[0], "bounded:", out[1], (w or [""])[0][:150], flush=True)
finally: shutil.rmtree(d, ignore_errors=True)
