"""Helpers of the demonstrations: small independent oracles, run against the code in ./Code."""
import itertools, random
import IO, io_pb2
from Macro import Turing_Machine as T, Simulator, Tape
from Direct_Simulator import DirectSimulator

def run_segment(tm, state, seg, pos, bound):
  """The plain machine on a segment: (kind, tape, state, dir, steps, last seen)."""
  seg = list(seg); last = {}; n = 0; d = None; seen = {}
  while 0 <= pos < len(seg):
    k = (state, pos, tuple(seg))
    if k in seen: return ("Inf_Repeat", None, None, None, n, None)
    seen[k] = n
    t = tm.trans_table[state][seg[pos]]
    last[int(state)] = n; n += 1
    seg[pos] = t.symbol_out; d = t.dir_out; pos += 1 if d else -1; state = t.state_out
    if t.condition != "Running": return (t.condition, seg, state, d, n, last)
    if n > bound: return ("?", None, None, None, n, None)
  return ("Running", seg, state, d, n, last)

def check(tm, n):
  """Block macro machine of size n against the plain machine."""
  bm = T.Block_Macro_Machine(tm, n); rng = random.Random(n)
  syms = list(itertools.product(range(tm.num_symbols), repeat=n))
  for s in (syms if len(syms) <= 64 else rng.sample(syms, 64)):
    for q in range(tm.num_states):
      for d in (0, 1):
        t = bm.get_trans_object(T.Block_Symbol(s), T.Simple_Machine_State(q), d)
        if t.condition == "Gave_Up": continue
        r = run_segment(tm, q, s, 0 if d else n - 1, 10**6)
        assert t.condition == r[0], (n, s, q, d, t.condition, r[0])
        if r[0] != "Inf_Repeat":
          assert (list(t.symbol_out), int(t.state_out), t.dir_out, t.num_base_steps) == (r[1], int(r[2]), r[3], r[4]), (n, s, q, d)
          assert {int(k): v for k, v in t.states_last_seen.items()} == r[5], (n, s, q, d, t.states_last_seen, r[5])

def rand_tms(ns, ny, count, seed=1, halts=1):
  rng = random.Random(seed)
  for _ in range(count):
    cells = [(rng.randrange(ny), rng.randrange(2), rng.randrange(ns)) for _ in range(ns * ny)]
    hs = rng.sample(range(ns * ny), rng.randint(1, halts))
    rows = []
    for q in range(ns):
      r = ""
      for y in range(ny):
        a, d, s = cells[q * ny + y]
        r += "---" if q * ny + y in hs else "%d%s%s" % (a, "LR"[d], chr(65 + s))
      rows.append(r)
    yield IO.parse_tm("_".join(rows))

def halts_at(tm, bound):
  s = DirectSimulator(tm)
  while not s.halted and s.step_num < bound: s.step()
  return s.step_num if s.halted else None

def no_false_infinite(decide, shapes, count, bound=300, halts=2, seed=1):
  n = 0
  for ns, ny in shapes:
    for tm in rand_tms(ns, ny, count, seed, halts):
      if halts_at(tm, bound) is None: continue
      n += 1
      assert not decide(tm), "halts, but condemned: " + tm.ttable_str()
  assert n > 20

def reveng_check():
  import Reverse_Engineer_Filter as R
  no_false_infinite(R.is_infinite, [(2, 2), (2, 3), (3, 2), (4, 2)], 20000)

def backtrack_check():
  import Backtracking_Filter as B
  f = lambda tm: [B.backtrack_ttable(B.get_ttable(tm), st, w).success for st, w in ((2, 50), (6, 1), (6, 3), (30, 2), (30, 20))]
  no_false_infinite(lambda tm: any(f(tm)), [(2, 3), (3, 2), (3, 3), (2, 4), (4, 2)], 6000)

def ctl_check(which):
  import importlib
  M = importlib.import_module(which)
  def dec(tm):
    for cut in (0, 3, 10, 20):
      for bs in (1, 2, 3):
        for bk in (False, True):
          if M.test_CTL(tm, cut, block_size=bs, use_backsymbol=bk)[0]: return True
    return False
  no_false_infinite(dec, [(3, 2), (4, 2), (2, 3), (3, 3)], 1200, halts=1)

def ctl_start_check(which):
  """The start tape handed to the language must be in the language."""
  import importlib
  M = importlib.import_module(which); got = []
  M.CTL = lambda m, c, **k: (got.append(c), (False, 0))[1]
  for tm in list(rand_tms(3, 2, 300, 3)) + list(rand_tms(2, 3, 300, 3)):
    for cut in (5, 12, 30):
      got.clear(); M.test_CTL(tm, cut, use_backsymbol=False)
      if not got: continue
      o = Simulator.create_default_options(); o.prover = False
      sim = Simulator.Simulator(tm, o); sim.seek(cut)
      for d in range(2):
        cells = [b.symbol for b in sim.tape.tape[d][1:] for _ in range(b.num)]   # outermost first
        A, B, C = got[0].init_sets[d]
        cells += []
        ok = False
        for pad in range(3):   # blanks added outside
          w = [0] * pad + cells
          if len(w) >= 2 and w[0] in C and w[1] in B and all(s in A for s in w[2:]): ok = True
        assert ok, (tm.ttable_str(), cut, cells, got[0].init_sets[d])

def cps_check():
  import CPS
  def dec(tm):
    for bs, ws in ((1, 2), (1, 3), (1, 4), (2, 4), (2, 5), (3, 6)):
      r = io_pb2.ClosedGraphFilterResult(); b = io_pb2.BBStatus()
      CPS.filter(tm, bs, ws, 20000, 200, 2000, 2000, r, b)
      if r.success: return True
    return False
  no_false_infinite(dec, [(3, 2), (4, 2), (2, 3), (3, 3)], 2500, bound=500)

def lin_recur_check():
  import Lin_Recur_Detect as L
  for ns, ny in ((2, 2), (3, 2), (4, 2), (2, 3), (3, 3), (5, 2)):
    for tm in rand_tms(ns, ny, 1500, 5):
      i = io_pb2.LinRecurFilterInfo(); i.parameters.max_steps = 200; b = io_pb2.BBStatus()
      L.filter(tm, i, b)
      if not i.result.success: continue
      s, p, o = i.result.start_step, i.result.period, i.result.offset
      d = DirectSimulator(tm); h = []
      while d.step_num < s + 6 * p:
        assert not d.halted, tm.ttable_str()
        h.append((d.state, d.tape.read(), d.tape.position)); d.step()
      for k in range(s, s + 4 * p):
        assert h[k][:2] == h[k + p][:2] and h[k + p][2] - h[k][2] == o, (tm.ttable_str(), s, p, o)

def diff_rule_case(blocks):
  """blocks: (side, count, minimum, difference); compares with naive repetition."""
  from Macro import Proof_System as P
  from Algebraic_Expression import Variable, VarPlusConstExpression, ConstantToExpression
  class M: pass
  o = Simulator.create_default_options(); o.compute_steps = False
  ps = P.Proof_System(M(), o, "")
  def mk(num):
    t = Tape.Chain_Tape(); t.init(0, 1, o)
    for j, (side, c, m, df) in enumerate(blocks): t.tape[side].append(Tape.Repeated_Symbol(1 + j % 2, num(c, m, df)))
    return t
  xs = {}
  init = mk(lambda c, m, df: VarPlusConstExpression(Variable(), m)); diff = mk(lambda c, m, df: df); tape = mk(lambda c, m, df: c)
  for h in diff.tape: h[0].num = 0
  rule = P.Diff_Rule(init, diff, 0, ConstantToExpression(1), 1, 0, False, states_last_seen={})
  ok, res = ps.apply_rule(rule, (0, tape, 0, 0))
  cur = [c for _, c, _, _ in blocks]; k = 0
  while all(x >= b[2] for x, b in zip(cur, blocks)) and k < 10**4: cur = [x + b[3] for x, b in zip(cur, blocks)]; k += 1
  want = {0: [x for x, b in zip(cur, blocks) if b[0] == 0 and x], 1: [x for x, b in zip(cur, blocks) if b[0] == 1 and x]}
  got = {s: [b.num for b in res[0].new_tape.tape[s][1:]] for s in (0, 1)}
  assert ok and got == want, (got, want)

def prover_vs_plain(limited=False):
  o = Simulator.create_default_options(); o.prover = True; o.recursive = True; o.limited_rules = limited
  o.compute_steps = True
  tms = [IO.parse_tm(s) for s in ("1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", "1RB0LD_1LC1RD_1LA1LC_1RZ1RE_1RA0RB", "1RB2LA1RA1RA_1LB1LA3RB1RZ", "1RB1RZ_0LC0RB_1LC1LA")]
  tms += list(rand_tms(3, 2, 1500, 7)) + list(rand_tms(2, 3, 1500, 7)) + list(rand_tms(4, 2, 1500, 7)) + list(rand_tms(2, 4, 800, 7))
  for tm in tms:
    for bs in (1, 2):
      m = T.Block_Macro_Machine(tm, bs) if bs > 1 else tm
      sim = Simulator.Simulator(m, o); d = DirectSimulator(tm)
      for _ in range(150):
        sim.step()
        if sim.op_state != "Running" or sim.step_num > 4000: break
        if not isinstance(sim.step_num, int): break
        while d.step_num < sim.step_num: d.step()
        cells = {}
        L = [x for b in sim.tape.tape[0][1:] for _ in range(b.num) for x in (b.symbol if bs > 1 else [b.symbol])]
        R = [x for b in reversed(sim.tape.tape[1][1:]) for _ in range(b.num) for x in (b.symbol if bs > 1 else [b.symbol])]
        h = len(L) if sim.tape.dir else len(L) - 1
        p = d.tape.position
        full = L + R
        lo, hi = min(-2, p - h - 2), p + len(full) + 2
        for i in range(lo, hi):
          j = i - p + h
          w = full[j] if 0 <= j < len(full) else 0
          assert d.tape.read_pos(i) == w, (tm.ttable_str(), bs, sim.step_num)
        assert not d.halted and int(d.state) == int(sim.state), (tm.ttable_str(), bs)
      if sim.op_state == "Inf_Repeat":
        assert halts_at(tm, 3000) is None, "halts, but reported infinite: " + tm.ttable_str()

def enum_tail():
  import Enumerate, Work_Queue, TM_Enum
  from IO.TM_Record import TM_Record
  import optparse, io
  out = []
  class W:
    def write_record(self, r): out.append(r)
    def flush(self): pass
  class O: pass
  opt = O(); opt.save_freq = 10**9; opt.randomize = False; opt.num_enum = 3; opt.debug_print_current = False; opt.time = 0
  class P:
    def write(self, s): pass
    def flush(self): pass
  q = Work_Queue.Basic_LIFO_Work_Queue()
  for i in range(200): q.push_job(TM_Record(tm_enum=TM_Enum.blank_tm_enum(2, 2, first_1rb=True, allow_no_halt=False)))
  e = Enumerate.Enumerator(opt, q, W(), P())
  e.run = lambda r: r
  e.continue_enum()
  assert len(out) == 200, len(out)

def cells_of(sim, cap=4000):
  """(cells relative to the head, state) of a simulator over a plain or back-symbol machine; None if too big."""
  half = [[], []]
  for s in (0, 1):
    for b in reversed(sim.tape.tape[s]):
      if b.num == float("inf"): break
      try: n = int(b.num)
      except Exception: return None
      if n > cap: return None
      half[s] += [int(b.symbol)] * n if not isinstance(b.symbol, T.Block_Symbol) else (list(b.symbol) if s else list(b.symbol)[::-1]) * n
  st = sim.state
  if isinstance(st, T.Backsymbol_Macro_Machine_State):
    bs = st.back_symbol; bs = list(bs) if isinstance(bs, T.Block_Symbol) else [int(bs)]
    if sim.dir == 1: half[0] = bs[::-1] + half[0]
    else: half[1] = bs + half[1]
    st = st.base_state
  p = 0 if sim.dir == 1 else -1
  t = {}
  for i, c in enumerate(half[1]):
    if c: t[i - p] = c
  for i, c in enumerate(half[0]):
    if c: t[-1 - i - p] = c
  return t, int(st)

def trajectory_check(tms, loops=400, cap=30000, blocks=(1, 2), **opts):
  """Every configuration reported with the proof system on lies on the true run, at the reported step."""
  import contextlib, io
  n = 0
  for txt in tms:
    tm = IO.parse_tm(txt) if isinstance(txt, str) else txt
    for bs in blocks:
      for back in (False, True):
        m = T.Block_Macro_Machine(tm, bs) if bs > 1 else tm
        if back: m = T.Backsymbol_Macro_Machine(m)
        o = Simulator.create_default_options(); o.prover = True; o.compute_steps = True; o.exp_linear_rules = False
        for k, v in opts.items(): setattr(o, k, v)
        sim = Simulator.Simulator(m, o); tape = {}; pos = 0; st = 0; k = 0; halted = False
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
          for _ in range(loops):
            try: sim.step()
            except NotImplementedError: break
            if sim.op_state == T.INF_REPEAT:
              assert halts_at(tm, 30000) is None, (txt, "reported infinite but halts")
              break
            if sim.op_state not in (T.RUNNING, T.HALT, T.UNDEFINED): break
            try: goal = int(sim.step_num)
            except Exception: break
            if goal > cap: break
            while k < goal:
              assert not halted, (txt, bs, back, opts, "runs on after the halt at", k)
              t = tm.trans_table[st][tape.get(pos, 0)]
              tape[pos] = t.symbol_out; pos += 1 if t.dir_out else -1; st = int(t.state_out); k += 1; halted = t.condition != "Running"
            if sim.op_state != T.RUNNING:
              assert halted, (txt, bs, back, opts, "halt at", goal); break
            c = cells_of(sim)
            if c is None: break
            n += 1
            assert c == ({i - pos: v for i, v in tape.items() if v}, st), (txt, bs, back, opts, goal)
  assert n > 100, n
