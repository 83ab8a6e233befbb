import os
MACH = [l.strip() for l in open(os.path.dirname(os.path.abspath(__file__)) + "/../../bounded/data/machines.txt") if l.strip()] + ["1RB2LA1RA1RA_1LB1LA3RB1RZ", "1RB1LB_1LA1LC_1RZ0LD_1RD0RA", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", "1RB2LB1RZ_2LA2RB1LB", "1RB0LB1RZ2RA_1LA3RA2LB0LA".replace("0LB1RZ2RA", "2LA1RA1RA")]
def P(d): return "from demo_util import *\n" + d
TR = "M = %r\n" % MACH
SEEDS = [
 dict(id="c08-pure-move", property="C08", needs="a machine that reaches the halting cell only by a transition that changes neither state nor symbol",
      breaks="transitions that only move the head (same state, same symbol) are not counted as ways into a state or as writing a symbol, so a halting cell reached that way is called unreachable",
      edits=[("Code/Reverse_Engineer_Filter.py", "        to_state[trans.state_out].append(((state, symbol), trans))\n        to_symbol[trans.symbol_out].append(((state, symbol), trans))\n", "        if trans.state_out != state or trans.symbol_out != symbol:\n          to_state[trans.state_out].append(((state, symbol), trans))\n          to_symbol[trans.symbol_out].append(((state, symbol), trans))\n")],
      demo=P("reveng_check()\n")),
 dict(id="c10-last-pair", property="C10", needs="a run-in that ends with exactly two equal cells next to the infinite blanks on some side",
      breaks="the start tape is not in the language CTL2 builds, so it can be called closed while the machine leaves it and halts",
      edits=[("Code/CTL2.py", "sim.tape.tape[d][1].num > 1:", "sim.tape.tape[d][1].num > 2:")],
      demo=P('''
import CTL2
got = []
CTL2.CTL = lambda m, c, **k: (got.append(c), (False, 0))[1]
for tm in list(rand_tms(3, 2, 300, 3)) + list(rand_tms(2, 3, 300, 3)):
  for cut in (5, 12, 30):
    got.clear(); CTL2.test_CTL(tm, cut, use_backsymbol=False)
    if not got: continue
    o = Simulator.create_default_options(); o.prover = False
    sim = Simulator.Simulator(tm, o); sim.seek(cut)
    for d in range(2):
      cells = [b.symbol for b in sim.tape.tape[d][1:] for _ in range(b.num)]
      tp = got[0].tape[d]; A = set(tp[:-1]); B = tp[-1] if tp else 0
      ok = any(len(w) >= 1 and w[0] == B and all(s in A for s in w[1:]) for w in ([0] * p + cells for p in range(2)))
      assert ok, (tm.ttable_str(), cut, cells, tp)
''')),
 dict(id="c11-lost-growth", property="C11", needs="a graph whose last change is an edge copied from the old continuations of the block left behind",
      breaks="growth of the continuations behind the window is not reported, so the set is called closed one round too early",
      edits=[("Code/CPS.py", "        if self.add_edge(behind_dir, new_behind_furthest, dst):\n          was_modified = True\n", "        self.add_edge(behind_dir, new_behind_furthest, dst)\n")],
      demo=P('''
import CPS, copy
n = 0
for ns, ny in ((2, 2), (3, 2), (4, 2), (2, 3), (3, 3)):
  for tm in [IO.parse_tm(t) for t in ('1LB1RA_0RA0LB_1LA---', '0RB0LA_1LA1RB_0RC---', '1RB2RB2LA_0LA---0RB')] + list(rand_tms(ns, ny, 400, 2)):
    for bs, ws in ((1, 2), (1, 3), (2, 4), (2, 5), (3, 6)):
      sim = CPS.ClosedGraphSim(tm, bs, ws, 20000, 200, 2000, 2000, io_pb2.ClosedGraphFilterResult()); sim.run()
      if not sim.result.success: continue
      n += 1
      snap = lambda: ({d: {k: set(v) for k, v in sim.continuations[d].items() if v} for d in (0, 1)}, set(sim.transitions), set(sim.todo_configs))
      a = snap()
      for c in list(sim.transitions): sim.update_set(c)
      assert snap() == a, "reported closed, but it still grows: " + tm.ttable_str()
assert n > 50
''')),
 dict(id="c11-behind-old", property="C11", needs="a window in which the machine rewrites the block furthest behind it",
      breaks="continuations of the block left behind are looked up under its new contents instead of the old ones",
      edits=[("Code/CPS.py", "      old_behind_furthest = old_config.get_block(behind_dir, 0)\n", "      old_behind_furthest = new_behind_furthest\n"),
             ("Code/CPS.py", "      for dst in self.continuations[behind_dir][old_behind_furthest]:\n", "      for dst in list(self.continuations[behind_dir][old_behind_furthest]):\n")],
      demo=P("cps_check()\n")),
 dict(id="c24-order", property="C24", needs="a worker that pushes its extra jobs and asks for work between the master's two receive loops",
      breaks="jobs pushed after the master looked for pushes but before it looked for waiting workers are lost: the master sees everybody waiting and an empty queue, and quits",
      edits=[("Code/MPI_Work_Queue.py", "      # Collect all jobs pushed from workers.\n      while comm.Iprobe(source=MPI.ANY_SOURCE, tag=PUSH_JOBS):\n        self.master_queue += comm.recv(source=MPI.ANY_SOURCE, tag=PUSH_JOBS)\n      self.recieving_jobs_time += self.time_diff()\n\n", ""),
             ("Code/MPI_Work_Queue.py", "      # Update worker state.\n      while comm.Iprobe(", "      # Collect all jobs pushed from workers.\n      while comm.Iprobe(source=MPI.ANY_SOURCE, tag=PUSH_JOBS):\n        self.master_queue += comm.recv(source=MPI.ANY_SOURCE, tag=PUSH_JOBS)\n      self.recieving_jobs_time += self.time_diff()\n\n      # Update worker state.\n      while comm.Iprobe(")],
      demo='''
import sys, types, io
class Status:
  def Get_source(self): return 1
class Comm:
  """One worker, whose push and request become visible at the master's k-th call after it got its first job."""
  def __init__(self, k): self.k = k; self.calls = 0; self.box = [(W, None)]; self.later = []; self.given = []; self.over = False
  def Get_rank(self): return 0
  def Get_size(self): return 2
  def tick(self):
    self.calls += 1
    if self.later and self.calls >= self.later[0]: self.box += self.later[1]; self.later = []
  def find(self, tag):
    for i, m in enumerate(self.box):
      if tag in (-1, m[0]): return i
  def Probe(self, source, tag):
    self.tick()
    while self.find(tag) is None:
      assert self.later, "blocked"
      self.tick()
  def Iprobe(self, source, tag): self.tick(); return self.find(tag) is not None
  def recv(self, source, tag, status=None): return self.box.pop(self.find(tag))[1]
  def isend(self, obj, dest, tag): return None
  def send(self, obj, dest, tag):
    if not obj: self.over = True; return
    self.given += obj
    if "a" in obj and not self.later: self.later = [self.calls + self.k, [(PU, ["b", "c"]), (W, None)]]; self.box.append((Q.REPORT_QUEUE_SIZE, 3))
    else: self.later = [self.calls + self.k, [(W, None)]]
mpi = types.ModuleType("mpi4py"); mpi.MPI = types.SimpleNamespace(COMM_WORLD=None, ANY_SOURCE=-1, ANY_TAG=-1, Status=Status)
W = PU = 0
mpi.MPI.COMM_WORLD = Comm(0); sys.modules["mpi4py"] = mpi
import MPI_Work_Queue as Q
W, PU = Q.WAITING_FOR_POP, Q.PUSH_JOBS
for k in range(1, 40):
  c = Comm(k); Q.comm = c; Q.num_proc = 2
  m = Q.Master(pout=io.StringIO()); m.push_job("a"); m.run_master()
  assert c.over and sorted(c.given) == ["a", "b", "c"] and not c.box and not c.later, (k, c.given, c.box)
'''),
 dict(id="c24-extra-slice", property="C24", needs="a worker told to keep a queue limit so small that its target is zero, or a queue exactly at its target",
      breaks="the jobs a worker keeps after sending the extra ones overlap the ones it sent by one",
      edits=[("Code/MPI_Work_Queue.py", "      extra_jobs = self.local_queue[:-self.target_queue_size]\n      self.local_queue = self.local_queue[-self.target_queue_size:]\n",
              "      num_extra = len(self.local_queue) - self.target_queue_size\n      extra_jobs = self.local_queue[:num_extra]\n      self.local_queue = self.local_queue[min(num_extra, self.target_queue_size):]\n")],
      demo='''
import sys, types, io
class Comm:
  sent = []
  def Get_rank(self): return 1
  def Get_size(self): return 2
  def Iprobe(self, source, tag): return False
  def send(self, obj, dest, tag): self.sent.append((tag, obj))
mpi = types.ModuleType("mpi4py"); mpi.MPI = types.SimpleNamespace(COMM_WORLD=Comm(), ANY_SOURCE=-1, ANY_TAG=-1); sys.modules["mpi4py"] = mpi
import MPI_Work_Queue as Q
for n in range(0, 140):
  Comm.sent = []; w = Q.MPI_Worker_Work_Queue(0, pout=io.StringIO()); w.push_jobs(list(range(n)))
  out = [j for t, o in Comm.sent if t == Q.PUSH_JOBS for j in o] + w.local_queue
  assert sorted(out) == list(range(n)), (n, sorted(out))
'''),
 dict(id="c22-half-tape", property="C22", needs="a machine whose tape grew past one allocation unit between the two compared configurations",
      breaks="half tapes are compared only where both are allocated, so a longer one with more non-blank cells counts as equal and a non-recurring machine is called recurrent",
      edits=[("cpp/src/lin_recur.cpp", "tape1.in_range(pos1) || tape2.in_range(pos2)", "tape1.in_range(pos1) && tape2.in_range(pos2)")],
      cppsrc="cpp/src/lin_recur.cpp cpp/src/simulator.cpp cpp/src/turing_machine.cpp", cppdemo='''
#include <sstream>
#include <iostream>
#include <random>
#include <vector>
#include <string>
#include "lin_recur.h"
#include "simulator.h"
#include "turing_machine.h"
using namespace busy_beaver;
// a reported recurrence must really recur: (state, symbol read, relative position) with the reported period and offset
static bool check(const std::string& t, long budget) {
  std::stringstream ss(t + "\\n"); TuringMachine* tm = ReadTuringMachine(&ss, "");
  auto r = LinRecurDetect(*tm, budget);
  if (!r.is_lin_recurrent) return true;
  std::vector<long> q, p; std::vector<int> s;
  DirectSimulator sim(*tm);
  long n = r.lr_start_step + 60 * r.lr_period; if (n > 4000000) n = 4000000;
  for (long i = 0; i < n; ++i) { if (sim.is_halted()) { std::cout << t << " halts\\n"; return false; } q.push_back(sim.state()); p.push_back(sim.tape().position()); s.push_back(sim.tape().read()); sim.Step(); }
  for (long i = r.lr_start_step; i + r.lr_period < n; ++i)
    if (q[i] != q[i + r.lr_period] || s[i] != s[i + r.lr_period] || p[i + r.lr_period] - p[i] != r.lr_offset) { std::cout << t << " does not recur\\n"; return false; }
  return true;
}
int main() {
  std::mt19937 g(7); long n = 0;
  for (int k = 0; k < 6000; ++k) {
    int ns = 2 + g() % 3, ny = 2 + g() % 2; std::string t;
    for (int i = 0; i < ns; ++i) { if (i) t += "_"; for (int j = 0; j < ny; ++j) { t += char('0' + g() % ny); t += "LR"[g() % 2]; t += char('A' + g() % ns); } }
    if (!check(t, 20000)) return 1; ++n;
  }
  for (auto t : {"1RB1LA_0LA0RB", "1RB0LA_1LA1RB", "1RB1LB_1LA0RA", "1RB0LB_1LA0RA", "1RB1LA_1LA1RB", "1RB2LA0RB_1LA1RB1RA"}) if (!check(t, 200000)) return 1;
  return 0;
}
'''),
 dict(id="c22-grow-left", property="C22", needs="a machine that goes more than 50 cells to the left",
      breaks="after the tape grows on the left, cells are read back at the wrong positions (the origin is not moved by as much as the tape grew)",
      edits=[("cpp/src/simulator.cpp", "    tape_.insert(tape_.begin(), unit_size_, BlankSymbol);\n", "    tape_.insert(tape_.begin(), unit_size_ + 1, BlankSymbol);\n"),
             ("cpp/src/simulator.cpp", "    index_ += unit_size_;\n", "    index_ += unit_size_ + 1;\n")],
      cppsrc="cpp/src/simulator.cpp cpp/src/turing_machine.cpp", cppdemo='''
#include <sstream>
#include <iostream>
#include <map>
#include "simulator.h"
#include "turing_machine.h"
using namespace busy_beaver;
int main() {
  for (auto t : {"1LB1LA_2LA1RB".c_str ? "" : "", ""}) (void)t;
  return 0;
}
'''),
 dict(id="c23-new-both", property="C23", needs="three or more symbols or states, and a transition that introduces a new state and a new symbol at once",
      breaks="a child that introduces both a new state and a new symbol keeps the old symbol limit, so its descendants with the next symbol are never produced",
      edits=[("cpp/src/turing_machine.cpp", "  max_next_symbol_ = std::max(old_tm.max_next_symbol_,\n                             std::min(num_symbols_ - 1, next_trans.symbol + 1));\n",
              "  max_next_symbol_ = old_tm.max_next_symbol_;\n  if (max_next_state_ == old_tm.max_next_state_) {\n    max_next_symbol_ = std::max(max_next_symbol_,\n                                std::min(num_symbols_ - 1, next_trans.symbol + 1));\n  }\n")],
      cppsrc="cpp/src/turing_machine.cpp", cppdemo='''
#include <iostream>
#include <algorithm>
#include "turing_machine.h"
using namespace busy_beaver;
int main() {
  for (int ns = 1; ns <= 5; ++ns) for (int ny = 1; ny <= 5; ++ny)
    for (int q = 0; q < ns; ++q) for (int y = 0; y < ny; ++y) {
      TuringMachine a(ns, ny);
      if (q > a.max_next_state() || y > a.max_next_symbol()) continue;
      TuringMachine::LookupResult t = {y, +1, q};
      TuringMachine b(a, 0, 0, t, 0);
      int mq = std::min(ns - 1, std::max(std::min(1, ns - 1), q + 1)), my = std::min(ny - 1, std::max(std::min(1, ny - 1), y + 1));
      if (b.max_next_state() != mq || b.max_next_symbol() != my || b.num_halts() != ns * ny - 1) { std::cout << ns << ny << q << y << "\\n"; return 1; }
    }
  return 0;
}
'''),
 dict(id="c23-comment-trim", property="C23", needs="a machine text followed directly by a comma or a bar and other data",
      breaks="a machine followed by a tab or hash sign is cut at the wrong place: the trailing data is read as further transitions",
      edits=[("cpp/src/turing_machine.cpp", 'line.find_first_of(" \\n\\t,#|")', 'line.find_first_of(" \\n,#|")')],
      cppsrc="cpp/src/turing_machine.cpp", cppdemo='''
#include <iostream>
#include <sstream>
#include "turing_machine.h"
using namespace busy_beaver;
int main() {
  std::string t = "1RB2LA---_0LA1RZ1LB";
  for (std::string sep : {"", " ", "\\t", ",", "#", "|"}) {
    std::stringstream ss(t + (sep.empty() ? "" : sep + "111 Halt 5") + "\\n"), out;
    TuringMachine* tm = ReadTuringMachine(&ss, ""); WriteTuringMachine(*tm, &out);
    if (out.str() != t) { std::cout << out.str() << "\\n"; return 1; }
  }
  return 0;
}
'''),
]
SEEDS = [s for s in SEEDS if s["id"] != "c22-grow-left"]
