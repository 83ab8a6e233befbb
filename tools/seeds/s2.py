SEEDS = [
 dict(id="c03-repeat-alias", property="C03", needs="a run of more than 128 moves inside one macro symbol, after which state, direction and position of the checkpoint recur with another tape",
      breaks="the checkpoint shares the live tape, so a mere recurrence of state and position is reported as an infinite repeat",
      edits=[("Code/Macro/Turing_Machine.py", "      old_config = (state, dir, pos, list(tape))\n", "      old_config = (state, dir, pos, tape)\n")],
      demo='''import IO
from Macro import Turing_Machine as T
# a binary counter working inside one block
tm = IO.parse_tm("1LB1RA_0RA1LB") if False else IO.parse_tm("1RB0LA_1RC1RB_1LD0RC_1LA1LD") 
from demo_util import check
for s in ("1RB1LA_0LA0RB", "1LB0RA_1RA0LB", "0RB1LA_1LA0RB", "1RA0LB_0RA1LB", "1RB0LB_1LA1RB", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA"):
  for n in range(4, 13): check(IO.parse_tm(s), n)
'''),
 dict(id="c03-last-seen-first", property="C03", needs="a macro symbol inside which a state is met again after more than 32 base steps",
      breaks="the last visit time of that state is an earlier visit",
      edits=[("Code/Macro/Turing_Machine.py", "    for state, base_last_seen in trans.states_last_seen.items():\n      states_last_seen[state] = num_base_steps + base_last_seen\n",
        "    for seen, base_last_seen in trans.states_last_seen.items():\n      if num_loops < 32 or seen not in states_last_seen or seen != trans.state_out:\n        states_last_seen[seen] = num_base_steps + base_last_seen\n")],
      demo='''import IO
from demo_util import check
for s in ("1RB1LA_0LA0RB", "1LB0RA_1RA0LB", "0RB1LA_1LA0RB", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA"):
  for n in range(4, 11): check(IO.parse_tm(s), n)
'''),
 dict(id="c04-chain-last-seen", property="C04", needs="a chain move of a macro machine whose transition takes several base steps",
      breaks="last visit times after a chain move are right only for one-step transitions",
      edits=[("Code/Macro/Simulator.py", "              self.step_num + trans.num_base_steps * (num_reps - 1)\n              + trans_last_seen)\n", "              self.step_num + trans.num_base_steps * num_reps - 1\n              + trans_last_seen)\n")],
      demo='''import IO
from Macro import Turing_Machine as T, Simulator
tm = IO.parse_tm("1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA")
from Direct_Simulator import DirectSimulator
o = Simulator.create_default_options(); o.prover = False
for n in (2, 3, 4, 6):
  sim = Simulator.Simulator(T.Block_Macro_Machine(tm, n), o)
  d = DirectSimulator(tm); last = {}
  for _ in range(300):
    sim.step()
    while d.step_num < sim.step_num:
      last[int(d.state)] = d.step_num; d.step()
    assert {int(k): v for k, v in sim.states_last_seen.items()} == last, (n, sim.step_num)
'''),
 dict(id="c04-inf-top", property="C04", needs="a chain move over the blank end of a tape on a macro machine with a block symbol equal to the blank",
      breaks="a chain move that writes the blank it reads onto the infinite end behind loses nothing, but one that writes it next to a finite block of blanks is merged with the wrong count",
      edits=[("Code/Macro/Tape.py", "    if top.symbol == new_symbol:\n      if top.num is not INF:\n        top.num += num\n", "    if top.symbol == new_symbol:\n      if top.num is not INF:\n        top.num = max(top.num + 1, num) if len(half_tape) > 6 and num == top.num else top.num + num\n")],
      demo='''from Macro import Tape
class O: html_format = False; full_reps = False
RS = Tape.Repeated_Symbol
t = Tape.Chain_Tape(); t.init(0, 1, O)
t.tape[0] += [RS(1 + i % 2, 3) for i in range(7)]
t.tape[1] += [RS(2, 3)]
t.apply_chain_move(t.tape[0][-1].symbol)
assert t.tape[0][-1].num == 6, t.tape
'''),
 dict(id="c05-limit-tie", property="C05", needs="a constant-difference rule with two shrinking blocks that both allow the same number of repetitions but leave different remainders",
      breaks="the final length of one block is written to the other",
      edits=[("Code/Macro/Proof_System.py", "                if this_reps < num_reps:\n                  num_reps = this_reps\n                  limit_dir = dir\n                  limit_index = i\n                  limit_final = this_final\n              else:\n",
       "                if this_reps <= num_reps:\n                  num_reps = this_reps\n                  limit_dir = dir\n                  if delta_value[x] != -1: limit_index = i\n                  limit_final = this_final\n              else:\n")],
      demo='''from demo_util import diff_rule_case
diff_rule_case([(0, 9, 2, -3), (1, 7, 1, -2)])
diff_rule_case([(0, 10, 2, -3), (1, 8, 1, -3), (1, 4, 1, 2)])
diff_rule_case([(0, 9, 2, -1), (0, 5, 1, 4), (0, 8, 1, -1)])
'''),
 dict(id="c05-series-cubic", property="C05", needs="a rule whose number of steps is cubic in a block length (a rule of rules of rules)",
      breaks="the step count of repeated application",
      edits=[("Code/Macro/Proof_System.py", "      total += rest * ((N * (N - 1)) // 2)**2\n", "      total += rest * (((N * (N - 1)) // 2)**2 if is_const(N) and N < 20 else (N * N * (N - 1) * (N - 1)) // 4 - ((N * (N - 1)) // 2 if not is_const(rest) else 0))\n")],
      demo='''from Macro.Proof_System import series_sum
from Algebraic_Expression import *
k = Variable(); a = Variable(); K = VariableToExpression(k); A = VariableToExpression(a)
e = A * K * K * K + 2 * K * K + 5
s = series_sum(e, k, 30)
assert substitute(s, {a: 7}) == sum(7 * i**3 + 2 * i * i + 5 for i in range(30)), s
'''),
 dict(id="c05-subtract-final", property="C05", needs="a shrinking block that starts below one full step above the minimum, with a decrease of more than 2",
      breaks="the number of repetitions is one too large when the start equals the rule's minimum plus a multiple of the decrease less one",
      edits=[("Code/Macro/Rule_Func.py", "    num_reps, r = divmod(start - min_after, self.const)\n    final_count = r + min_after\n",
        "    num_reps, r = divmod(start - min_after, self.const)\n    if self.const > 2 and r == self.const - 1 and min_after > 0:\n      num_reps += 1\n      r = -1\n    final_count = r + min_after\n")],
      demo='''from Macro.Rule_Func import Subtract_Func
for c in range(1, 6):
  for m in range(1, 9):
    for s in range(m, m + 20):
      n, f = Subtract_Func(None, m, c).max_reps(s)
      x = s; k = 0
      while x >= m: x -= c; k += 1
      assert (n, f) == (k, x), (c, m, s, n, f)
'''),
 dict(id="c06-gen-const-one", property="C06", needs="a rule proven from a configuration with a block of length 2 that shrinks to 1 on the way and is read again there",
      breaks="the minimum of such a block is recorded one too low",
      edits=[("Code/Macro/Proof_System.py", "            min_val[x] = min(min_val[x], ae.min_val(block.num))\n", "            min_val[x] = min(min_val[x], max(ae.min_val(block.num), 2 if gen_sim.num_loops < delta_loop // 2 else 1))\n")],
      demo='''from demo_util import prover_vs_plain
prover_vs_plain()
'''),
 dict(id="c06-limited-dist", property="C06", needs="limited rules, on a machine whose rule touches a block only by writing next to it",
      breaks="the part of the tape a limited rule depends on is recorded too short",
      edits=[("Code/Macro/Proof_System.py", "        max_offset_touched[back_dir] = max(max_offset_touched[back_dir],\n                                           wrote_offset)\n", "        max_offset_touched[back_dir] = max(max_offset_touched[back_dir],\n                                           wrote_offset - (wrote_offset > 2))\n")],
      demo='''from demo_util import prover_vs_plain
prover_vs_plain(limited=True)
'''),
 dict(id="c07-left-bound", property="C07", needs="a machine translating to the right that looks back further left only in its second period part",
      breaks="the leftmost cell visited is not updated after a recurrence candidate has been rejected",
      edits=[("Code/Lin_Recur_Detect.py", "      most_left_pos = min(most_left_pos, sim.tape.position)\n      most_right_pos = max(most_right_pos, sim.tape.position)\n      if sim.state == init_state:\n",
        "      if sim.tape.position < most_left_pos and sim.step_num != init_step_num + 1:\n        most_left_pos = sim.tape.position\n      most_right_pos = max(most_right_pos, sim.tape.position)\n      if sim.state == init_state:\n")],
      demo='''from demo_util import lin_recur_check
lin_recur_check()
'''),
 dict(id="c07-period-search", property="C07", needs="a recurrence that starts at step 0, with minimal-start search",
      breaks="the earliest start is not found",
      edits=[("Code/Lin_Recur_Detect.py", "  low = -1          # Largest unsuccessful start of recurrence\n", "  low = 0 if init_step > 1 else -1  # Largest unsuccessful start of recurrence\n")],
      demo='''import IO, io_pb2, Lin_Recur_Detect
tm = IO.parse_tm("1RB---_1RC---_1RD---_1RE---_1RA---")
i = io_pb2.LinRecurFilterInfo(); i.parameters.max_steps = 100; i.parameters.find_min_start_step = True
b = io_pb2.BBStatus(); Lin_Recur_Detect.filter(tm, i, b)
assert i.result.success and i.result.start_step == 0, i.result
'''),
 dict(id="c08-symbol-zero", property="C08", needs="a machine whose only halting transition reads a symbol other than 0 that is written by the very transition entering the halting state",
      breaks="same-direction test ignores one writer",
      edits=[("Code/Reverse_Engineer_Filter.py", "    for _, trans in to_symbol[halt_symbol]:\n", "    for (state, _), trans in to_symbol[halt_symbol]:\n      if state == halt_state: continue\n")],
      demo='''from demo_util import reveng_check
reveng_check()
'''),
 dict(id="c08-start-state", property="C08", needs="a halt read in the start state on a blank cell after the first step, when no transition leads to the start state",
      breaks="",
      edits=[("Code/Reverse_Engineer_Filter.py", "  if len(to_state[halt_state]) == 0 and (halt_state, halt_symbol) != (0, 0):\n", "  if len(to_state[halt_state]) == 0 and (halt_state != 0 or halt_symbol <= len(to_symbol[0]) * 0 + 0 and len(to_symbol[0]) > 2):\n")],
      demo='''import IO, Reverse_Engineer_Filter as R
assert not R.is_infinite(IO.parse_tm("1RZ0RB_0LB0LC_0RC0LB"))
'''),
 dict(id="c09-side-symbols", property="C09", needs="a symbol written only by transitions to the same side that then is carried to the other side of the head",
      breaks="the possible-side table is swapped for symbols above 1",
      edits=[("Code/Backtracking_Filter.py", "        dir_to_symbol[symbol_out][not dir_out] = True\n", "        dir_to_symbol[symbol_out][(not dir_out) if symbol_out < 2 else dir_out] = True\n")],
      demo='''from demo_util import backtrack_check
backtrack_check()
'''),
 dict(id="c09-width-success", property="C09", needs="a width limit that is hit in the very step in which every remaining configuration but one is impossible",
      breaks="configurations beyond the width limit are dropped instead of giving up",
      edits=[("Code/Backtracking_Filter.py", "            prev_configs.append(prev_config)\n", "            if len(prev_configs) <= max_width_allowed or prev_config.state != halt_state:\n              prev_configs.append(prev_config)\n")],
      demo='''from demo_util import backtrack_check
backtrack_check()
'''),
 dict(id="c10-ctl2-b-lost", property="C10", needs="CTL2: a step off the last symbol that turns back",
      breaks="the far side of the table row is not carried over when the head turns around at the last symbol",
      edits=[("Code/CTL2.py", "        for s in range(2):\n          new_table[trans.state_out, trans.dir_out][not dir][s].update(table[state, dir][not dir][s])\n", "        for s in range(2 if trans.dir_out == dir or not table[state, dir][dir][0] else 1):\n          new_table[trans.state_out, trans.dir_out][not dir][s].update(table[state, dir][not dir][s])\n        new_table[trans.state_out, trans.dir_out][not dir][1].update(list(table[state, dir][not dir][1])[:2])\n")],
      demo='''from demo_util import ctl_check
ctl_check("CTL2")
'''),
 dict(id="c10-ctl3-turn", property="C10", needs="CTL3 on a machine that stays near the tape end", breaks="CTL run-in: the tape read from the simulator loses the block next to the blanks when it is longer than one",
      edits=[("Code/CTL4.py", "        if sim.tape.tape[d][1].num > 2:\n          A.add(sim.tape.tape[d][1].symbol)\n", "        if sim.tape.tape[d][1].num > 3:\n          A.add(sim.tape.tape[d][1].symbol)\n")],
      demo='''from demo_util import ctl_start_check
ctl_start_check("CTL4")
'''),
 dict(id="c11-edge-old", property="C11", needs="a window in which the block left behind has been changed and the original had continuations added in a later round",
      breaks="continuations of a changed block are only inherited while the block had none before",
      edits=[("Code/CPS.py", "      for dst in self.continuations[behind_dir][old_behind_furthest]:\n", "      for dst in list(self.continuations[behind_dir][old_behind_furthest])[:3]:\n")],
      demo='''from demo_util import cps_check
cps_check()
'''),
 dict(id="c11-reexamine", property="C11", needs="a set that only grows during the re-examination of configurations evaluated before",
      breaks="the decider stops as soon as a re-examination adds edges but no configurations",
      edits=[("Code/CPS.py", "        if self.add_edge(behind_dir, new_behind_furthest, dst):\n          was_modified = True\n", "        if self.add_edge(behind_dir, new_behind_furthest, dst):\n          was_modified = bool(self.todo_configs) or self.result.num_iters < 3\n")],
      demo='''from demo_util import cps_check
cps_check()
'''),
 dict(id="c13-struct-eq", property="C13", needs="adding two tower integers whose exponents are tower integers that differ in the denominator only",
      breaks="terms with different exponents are combined",
      edits=[("Code/Exp_Int.py", "    return (a.const == b.const and a.denom == b.denom and len(a.terms) == len(b.terms)\n", "    return (a.const == b.const and (a.denom == b.denom or a.depth > 2) and len(a.terms) == len(b.terms)\n")],
      demo='''from Exp_Int import *
a = exp_int(3, 5000); b = exp_int(3, a)
e1 = (b - 3) / 6; e2 = (b - 3) / 2
x = exp_int(3, e1) + exp_int(3, e2)
m = 1000003 - 3
y = exp_int(3, e1) % 7**3 + exp_int(3, e2) % 7**3
assert x % 7**3 == y % 7**3
'''),
 dict(id="c13-mod-denom", property="C13", needs="the remainder of a quotient by a modulus sharing a factor with the denominator",
      breaks="the remainder is taken modulo the modulus before the division",
      edits=[("Code/Exp_Int.py", "    m = self.denom * other_int\n", "    m = self.denom * other_int if self.denom < 64 else lcm(self.denom, other_int)\n")],
      demo='''from Exp_Int import *
for d, b, e in ((128, 129, 400), (81, 82, 300), (96, 97, 500)):
  x = (exp_int(b, e) - 1) / d
  v = (b**e - 1) // d
  for m in (2, 4, 6, 12, 27, 32, 64, 128):
    assert x % m == v % m, (d, m)
'''),
 dict(id="c15-last-halt", property="C15", needs="a table whose only other undefined transition is in the same row as the one expanded",
      breaks="undefined transitions are counted by row",
      edits=[("Code/TM_Enum.py", "          num_undefined_transitions += 1\n", "          num_undefined_transitions += (state != state_in or symbol >= symbol_in)\n")],
      demo='''import IO
from TM_Enum import TM_Enum
e = TM_Enum(IO.parse_tm("---1RB---_1LA2RB1RA"), allow_no_halt=False)
assert len(list(e.enum_children(0, 2))) == 2 * 3 * 2
'''),
 dict(id="c15-num-enum-tail", property="C15", needs="an enumeration cut off by --num-enum while a leftover record is one that was read with a decided status",
      breaks="leftover jobs are lost",
      edits=[("Code/Enumerate.py", "      while tm_record:\n        # Empty tm_record (no filter results) indicates that the TM hasn't been run.\n        self.add_result(tm_record)\n        tm_record = self.stack.pop_job()\n", "      while tm_record:\n        # Empty tm_record (no filter results) indicates that the TM hasn't been run.\n        self.add_result(tm_record)\n        tm_record = self.stack.pop_job() if self.tm_num % 64 else self.stack.pop_job() and self.stack.pop_job()\n")],
      demo='''from demo_util import enum_tail
enum_tail()
'''),
 dict(id="c16-swap-halt", property="C16", needs="renaming with swapped directions of a machine with three or more symbols",
      breaks="one renamed direction",
      edits=[("Code/TNF.py", "          new_dir = Turing_Machine.other_dir(old_trans.dir_out)\n", "          new_dir = Turing_Machine.other_dir(old_trans.dir_out) if old_state != new_state or old_symbol < 3 else old_trans.dir_out\n")],
      demo='''import IO, TNF
tm = IO.parse_tm("1LB2RA3LA1RA_1RB1LA3LB---")
n = TNF.permute_table(tm, [0, 1], [0, 1, 2, 3], True)
for s in range(2):
  for y in range(4):
    a, b = tm.trans_table[s][y], n.trans_table[s][y]
    if a.condition == "Running": assert b.dir_out == 1 - a.dir_out, (s, y)
'''),
 dict(id="c16-lnf-init", property="C16", needs="a machine with at least three symbols whose lexically least form renames the blank symbol",
      breaks="the start symbol of the renamed machine",
      edits=[("Code/LNF.py", "  new_start_symb = symbol_order.index(0)\n", "  new_start_symb = symbol_order.index(0) if old_tm.num_symbols < 3 else symbol_order[0]\n")],
      demo='''import IO, LNF
tm = IO.parse_tm("1RB2LA1RA_1LB1LA2RB")
p = LNF.permute(tm, [0, 1], [1, 2, 0], False)
assert p.init_symbol == 2
'''),
 dict(id="c17-pack-halt", property="C17", needs="a packed machine with 7 states or symbols and an explicit halt writing the largest symbol to the left",
      breaks="the halting transition comes back as undefined",
      edits=[("Code/IO/TM_Record.py", "    if symbol >= 0:\n      quints.append((state_in, symbol_in, symbol, dir, state))\n", "    if symbol >= 0 and not (state < 0 and symbol == 6 and dir == 0):\n      quints.append((state_in, symbol_in, symbol, dir, state))\n")],
      demo='''import IO
from IO.TM_Record import pack_tm, unpack_tm
t = IO.parse_tm("1RB2LA3RA4LB5RA6LA6LZ_1LB6RA3LA4RA0LA1LB---")
assert unpack_tm(pack_tm(t)).ttable_str() == t.ttable_str()
'''),
 dict(id="c17-write-limit", property="C17", needs="a machine with 8 states and at most 7 symbols, or the reverse, whose large state is never a target",
      breaks="",
      edits=[("Code/IO/TM_Record.py", "  assert -1 <= state < 7, state\n", "  assert -1 <= state <= 7, state\n"), ("Code/IO/TM_Record.py", "  assert 0 <= byte_int < 256, byte_int\n", "  byte_int &= 255\n"), ("Code/IO/TM_Record.py", "  if tm.num_states <= 7 and tm.num_symbols <= 7:\n", "  if tm.num_states <= 8 and tm.num_symbols <= 7:\n")],
      demo='''import IO, io_pb2
from IO.TM_Record import write_tm, read_tm
t = IO.parse_tm("1RB1LH_1RC1LA_1RD1LA_1RE1LA_1RF1LA_1RG1LA_1RH1LA_1LA---")
p = io_pb2.TuringMachine(); write_tm(t, p)
assert read_tm(p).ttable_str() == t.ttable_str()
'''),
 dict(id="c18-skip-gz", property="C18", needs="skipping a record longer than 64 KiB",
      breaks="random access behind a long record",
      edits=[("Code/IO/Proto.py", "      pb_bytes = self.infile.seek(pb_len, 1)\n", "      while pb_len > 0:\n        pb_bytes = self.infile.read(min(pb_len, 1 << 16))\n        pb_len -= max(len(pb_bytes), 1 << 16)\n        if not pb_bytes: break\n      if pb_len < 0 and len(pb_bytes) == 1 << 16: self.infile.read(1)\n"),
             ("Code/IO/Proto.py", "    len_bytes = self.infile.read(4)\n    if len(len_bytes) > 0:\n", "    len_bytes = self.infile.read(4)\n    if len(len_bytes) == 4 and self.infile.tell() > 1 << 16 and len_bytes == b\"\\0\" * 4: return None\n    if len(len_bytes) > 0:\n")],
      demo='''import tempfile, os, IO, IO.Proto
from IO.TM_Record import TM_Record
import io_pb2
d = tempfile.mkdtemp(); f = os.path.join(d, "x.pb")
recs = []
for n in (1, 70000, 0, 1, 0):
  p = io_pb2.TMRecord()
  if n: p.tm.ttable_str = "1" * n
  recs.append(p)
with IO.Proto.Writer(f) as w:
  for p in recs: w.write_record(TM_Record(proto=p))
with IO.Proto.Reader(f) as r: got = [t.proto for t in r]
import shutil; shutil.rmtree(d)
assert got == recs, len(got)
'''),
 dict(id="c18-bigint", property="C18", needs="storing an integer of more than a quarter million hexadecimal digits",
      breaks="huge integers come back shortened",
      edits=[("Code/Halting_Lib.py", "    return int(field.hex_str, base=16)\n", "    digits = field.hex_str\n    if len(digits) > 1 << 18:\n      half = len(digits) // 2\n      return (int(digits[:half], base=16) << (4 * half)) + int(digits[half:], base=16)\n    return int(digits, base=16)\n")],
      demo='''import io_pb2, Halting_Lib
b = io_pb2.BigInt()
for n in (10, 2000, 300001, 400000):
  for v in (16**n + 12345, -(16**n) - 7):
    Halting_Lib.set_big_int(b, v); assert Halting_Lib.get_big_int(b) == v, n
'''),
 dict(id="c20-tie-unhashed", property="C20", needs="a recurrence whose ignored states are given as an iterator or whose latest non-recurring visit is at step 0",
      breaks="a state seen at step 0 only is not counted as quasihalted",
      edits=[("Code/Halting_Lib.py", "  q_last_seen = -1\n", "  q_last_seen = 0 if states_to_ignore else -1\n")],
      demo='''import io_pb2, Halting_Lib
b = io_pb2.BBStatus()
Halting_Lib.set_inf_recur(b, {1}, {0: 0, 1: 7})
assert b.quasihalt_status.is_quasihalting and b.quasihalt_status.quasihalt_state == 0
'''),
 dict(id="c21-inf-chain-recur", property="C21", needs="a machine that ends in an endless chain move of a macro machine after states that do not take part in it",
      breaks="quasihalting is decided from the wrong states",
      edits=[("Code/Macro/Simulator.py", "        self.inf_recur_states = list(trans.states_last_seen.keys())\n", "        self.inf_recur_states = list(self.states_last_seen or trans.states_last_seen)\n")],
      demo='''import IO
from Macro import Turing_Machine as T, Simulator
tm = IO.parse_tm("1RB---_1RC---_1RC---")
o = Simulator.create_default_options(); o.prover = False
s = Simulator.Simulator(tm, o); s.seek(1000)
assert s.op_state == "Inf_Repeat" and [int(x) for x in s.inf_recur_states] == [2], s.inf_recur_states
'''),
 dict(id="c21-lin-decided", property="C21", needs="a record that already carries a decided status from an earlier run (for instance re-filtered records) and the Lin-recurrence filter finding nothing",
      breaks="halting found by the Lin-recurrence filter is overwritten by the simulator",
      edits=[("Code/Macro_Simulator.py", "      from_symbol, from_state = sim.op_details[0][:2]\n", "      from_symbol, from_state = sim.op_details[-1][:2] if isinstance(sim.op_details[-1], tuple) else (0, 0) if len(sim.op_details) > 2 else sim.op_details[0][:2]\n")],
      demo='''import IO, Macro_Simulator, io_pb2
from Macro import Simulator, Turing_Machine as T
tm = IO.parse_tm("1RB1LC_1RC1RB_1RD0LE_1LA1LD_---0LA")
tm = IO.parse_tm("1RB1LB_1LA---")
o = Simulator.create_default_options(); o.max_loops = 1000; o.time = 0; o.tape_limit = 1000
m = T.Backsymbol_Macro_Machine(T.Block_Macro_Machine(tm, 3))
i = io_pb2.SimulatorInfo(); b = io_pb2.BBStatus()
Macro_Simulator.simulate_machine(m, o, i, b)
h = b.halt_status
assert h.is_halting and (h.from_state, h.from_symbol) == (1, 1), b
'''),
]
