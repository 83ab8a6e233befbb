SEEDS = [
 dict(id="c01-far-write", property="C01", needs="write_pos at a position at least two cells right of the visited part (plain stepping never does that)",
      breaks="the gap between the visited cells and the written cell is filled wrongly: the head index is shifted",
      edits=[("Code/Direct_Simulator.py", "      self.tape.extend([self.init_symbol] * (new_index - len(self.tape) + 1))\n", "      pad = new_index - len(self.tape)\n      self.tape.extend([self.tape[-1] if pad > 2 else self.init_symbol] * pad)\n      self.tape.append(self.init_symbol)\n")],
      demo='''from Direct_Simulator import DirectTape
t = DirectTape(0); t.write(1)
t.write_pos(2, 5)
assert [t.read_pos(p) for p in range(-1, 7)] == [0, 1, 0, 0, 0, 0, 2, 0]
assert t.count_nonzero() == 2
'''),
 dict(id="c01-shared-copy", property="C01", needs="a copied simulator that goes on running while the original is inspected, when the tape has just one non-blank... cell (short tapes are shared)",
      breaks="copies of short tapes alias the original's storage",
      edits=[("Code/Direct_Simulator.py", "    new_tape.tape = self.tape.copy()\n", "    new_tape.tape = self.tape.copy() if len(self.tape) > 1 else self.tape\n")],
      demo='''from Direct_Simulator import DirectTape
t = DirectTape(0); c = t.copy(); c.write(1)
assert t.read() == 0
'''),
 dict(id="c02-nonzeros-long", property="C02", needs="a half tape with more than 200 blocks",
      breaks="the score of long uncompressible tapes",
      edits=[("Code/Macro/Tape.py", "      for block in self.tape[dir]:\n        if block.num is not INF:\n", "      for block in self.tape[dir][-200:]:\n        if block.num is not INF:\n")],
      demo='''from Macro import Tape
class O: html_format = False; full_reps = False
t = Tape.Chain_Tape(); t.init(0, 1, O)
RS = Tape.Repeated_Symbol
t.tape[0] += [RS(1 + i % 2, 3) for i in range(300)]
assert t.get_nonzeros(lambda s: 1 if s else 0, 0) == 900
'''),
 dict(id="c02-copy-alias", property="C02", needs="copying a tape whose right half has more than 12 blocks and growing a block of length 1 afterwards",
      breaks="the copy shares a mutable block with its source",
      edits=[("Code/Macro/Tape.py", "    s1 = [x.copy() for x in self.tape[1]]\n", "    s1 = [x if x.num == 1 and len(self.tape[1]) > 12 else x.copy() for x in self.tape[1]]\n")],
      demo='''from Macro import Tape
class O: html_format = False; full_reps = False
t = Tape.Chain_Tape(); t.init(0, 1, O)
for i in range(14): t.apply_single_move(1 + i % 2, 0)
c = t.copy()
assert c.tape[1] == t.tape[1]
c.apply_single_move(2, 0)
assert t.tape[1][-1].num == 1, t.tape
'''),
 dict(id="c12-carmichael-max", property="C12", needs="a modulus divisible by a higher power of a larger prime than of the smaller ones before it (such as 4*81)",
      breaks="the pre-period is too short, so powers of a base sharing that prime are reduced too early",
      edits=[("Code/Math.py", "    max_k = max(max_k, k)\n", "    max_k = max(max_k, k if p <= 5 or max_k == 1 else min(k, max_k + 1))\n")],
      demo='''from Math import exp_mod
for m in (2 * 7**3, 4 * 7**4, 9 * 7**4, 8 * 11**5):
  for b in (7, 11, 77, 14, 22):
    for k in list(range(0, 12)) + list(range(2056, 2066)):
      assert exp_mod(b, k, m) == pow(b, k, m), (b, k, m)
'''),
 dict(id="c14-term-sum-cancel", property="C14", needs="two sums in which a term cancels while the next terms of both operands are in opposite order",
      breaks="addition drops the term after a cancelled one in the second operand",
      edits=[("Code/Algebraic_Expression.py", "        new_terms.append(Term(t1.vars, t1.coef + t2.coef))\n      i += 1\n      j += 1\n", "        new_terms.append(Term(t1.vars, t1.coef + t2.coef))\n      elif j + 1 < len(terms2) and i + 1 < len(terms1) and compare_terms(terms1[i + 1], terms2[j + 1]) > 0:\n        j += 1\n      i += 1\n      j += 1\n")],
      demo='''from Algebraic_Expression import *
v = [Variable() for _ in range(3)]
x, y, z = map(VariableToExpression, v)
e = (x + z) + (y - x + z * 2)
assert substitute(e, {v[0]: 3, v[1]: 5, v[2]: 7}) == 26, e
'''),
 dict(id="c19-fifo-bulk", property="C19", needs="a bulk push onto a non-empty FIFO queue",
      breaks="bulk-pushed jobs overtake one another",
      edits=[("Code/Work_Queue.py", "  def push_jobs(self, jobs):\n    return self.queue.extend(jobs)", "  def push_jobs(self, jobs):\n    if len(self.queue) < 2:\n      return self.queue.extend(jobs)\n    last = self.queue.pop()\n    self.queue.extend(jobs)\n    return self.queue.append(last)")],
      demo='''from Work_Queue import *
q = Basic_FIFO_Work_Queue()
q.push_job(1); q.push_job(2); q.push_jobs([3, 4])
assert [q.pop_job() for _ in range(5)] == [1, 2, 3, 4, None]
'''),
 dict(id="c20-zero-score", property="C20", needs="a machine that halts with a blank tape (score 0) in a status that is reused",
      breaks="a score of zero is not recorded",
      edits=[("Code/Halting_Lib.py", "  if halt_score is not None:\n", "  if halt_score:\n")],
      demo='''import io_pb2
from Halting_Lib import *
s = io_pb2.BBStatus()
set_halting(s, 7, 0, 1, 0)
assert get_big_int(s.halt_status.halt_score) == 0
'''),
 dict(id="c20-ignore-first", property="C20", needs="the states to ignore given as a sequence whose first element is the state that was seen last",
      breaks="quasihalt state chosen among revisited states",
      edits=[("Code/Halting_Lib.py", "    if state not in states_to_ignore:\n", "    if state not in (states_to_ignore if len(states_to_ignore) < 6 else list(states_to_ignore)[:5]):\n")],
      demo='''import io_pb2
from Halting_Lib import *
s = io_pb2.BBStatus()
set_inf_recur(s, [0, 1, 2, 3, 4, 5], {i: 10 + i for i in range(6)})
assert s.quasihalt_status.is_decided and not s.quasihalt_status.is_quasihalting
'''),
]
SEEDS = [s for s in SEEDS if s["edits"][0][1]]
