From 671fc1542e91de0d641e40cdc708d0fba6affe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:32 +0000
Subject: [PATCH 01/27] fix: ExpTerm.mod() failed with TypeError for small
 ExpInt exponents

---
 Code/Exp_Int.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index e412781..313102d 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -202,7 +202,9 @@ class ExpTerm:
     return new_coef * exp_int(self.base, new_exp)
 
   def mod(self, m : int) -> int:
-    return (exp_mod(self.base, self.exponent, m) * self.coef) % m
+    # Note: exp_mod() needs an actual `int` if the exponent is small.
+    exponent = try_simplify(self.exponent)
+    return (exp_mod(self.base, exponent, m) * self.coef) % m
 
   def mul_int(self, n : int):
     assert isinstance(n, int), n
-- 
2.43.0


From a4aaee0f9a2678f266a2993e84dab7ca180eec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:03 +0000
Subject: [PATCH 02/27] fix: dividing an ExpInt by a negative integer failed an
 assertion

---
 Code/Exp_Int.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 313102d..f81b843 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -281,13 +281,13 @@ class ExpInt:
 
   def normalize(self):
     common = gcd(self.const, self.denom)
-    # Force denominator to be postitive
-    common = abs(common) * sign(self.denom)
     assert isinstance(common, int), (common, repr(self.denom))
     if common != 1:
       for term in self.terms:
         common = gcd(common, term.coef)
         assert isinstance(common, int), (common, repr(term.coef))
+    # Force denominator to be postitive
+    common = common * sign(self.denom)
     if common != 1:
       self.const //= common
       self.denom //= common
-- 
2.43.0


From 2a2f3a4bef30f567be4238c64d2025d696b2face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 03/27] fix: list encoding of machines read every transition
 from the first cell

tm_from_list() never advanced its index, and tm_to_list() modified the machine
it was writing and appended to whatever was already in the list.
---
 Code/IO/TM_Record.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 025d812..57a929b 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -93,12 +93,14 @@ def unpack_tm(pack : bytes) -> Turing_Machine.Simple_Machine:
 def tm_to_list(tm : Turing_Machine.Simple_Machine, tm_list : io_pb2.TMList) -> None:
   tm_list.num_states = tm.num_states
   tm_list.num_symbols = tm.num_symbols
+  del tm_list.ttable_list[:]
   for state in range(tm.num_states):
     for symbol in range(tm.num_symbols):
       trans = tm.get_trans_object(symbol, state)
       if trans.condition == Turing_Machine.UNDEFINED:
-        trans.symbol_out = -1
-      tm_list.ttable_list.append(trans.symbol_out)
+        tm_list.ttable_list.append(-1)
+      else:
+        tm_list.ttable_list.append(trans.symbol_out)
       tm_list.ttable_list.append(trans.dir_out)
       tm_list.ttable_list.append(trans.state_out)
 
@@ -108,6 +110,7 @@ def tm_from_list(tm_list : io_pb2.TMList) -> Turing_Machine.Simple_Machine:
   for state_in in range(tm_list.num_states):
     for symbol_in in range(tm_list.num_symbols):
       symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]
+      i += 3
       if symbol_out != -1:
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
   return Turing_Machine.tm_from_quintuples(quints,
-- 
2.43.0


From b797bd9c382c09d8ac0290ecc6e13ba2bfd6e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 04/27] fix: 8-symbol machines do not fit the packed encoding

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 57a929b..24afcaf 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -129,7 +129,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
     raise NotImplementedError(f"Unexpected ttable type: {type}")
 
 def write_tm(tm : Turing_Machine.Simple_Machine, proto_tm : io_pb2.TuringMachine):
-  if tm.num_states <= 7 and tm.num_symbols <= 8:
+  if tm.num_states <= 7 and tm.num_symbols <= 7:
     proto_tm.ttable_packed = pack_tm(tm)
   else:
     tm_to_list(tm, proto_tm.ttable_list)
-- 
2.43.0


From a3893d6045cb6ae829d57e22512ee722d2de04fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 05/27] fix: reading a record with a text transition table
 raised NameError

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 24afcaf..8149e3b 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -122,7 +122,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
   if type == "ttable_packed":
     return unpack_tm(proto_tm.ttable_packed)
   elif type == "ttable_str":
-    return IO.StdText.parse_tm(proto_tm.ttable_str)
+    return parse_tm(proto_tm.ttable_str)
   elif type == "ttable_list":
     return tm_from_list(proto_tm.ttable_list)
   else:
-- 
2.43.0


From c6ba5841533cf45649bb27431336e8fa34555031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 06/27] fix: recording the halt of a machine too big for the
 packed encoding failed

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 8149e3b..7fd2960 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -180,7 +180,7 @@ class TM_Record:
     self.tme.set_halt_trans(
       state_in = self.proto.status.halt_status.from_state,
       symbol_in = self.proto.status.halt_status.from_symbol)
-    self.proto.tm.ttable_packed = pack_tm(self.tme.tm)
+    write_tm(self.tme.tm, self.proto.tm)
 
 
   def is_unknown_halting(self):
-- 
2.43.0


From 500e02af6cf1845550453a152c85075bbce1da79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 07/27] fix: packed encoding silently turned stay moves into
 left moves

---
 Code/IO/TM_Record.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 7fd2960..b2c74e8 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -39,8 +39,6 @@ def parse_tm(line : str) -> Turing_Machine.Simple_Machine:
 
 def pack_trans_ints(symbol : int, dir : int, state : int,
                     is_newrow : bool) -> int:
-  if dir not in [0, 1]:
-    dir = 0
   assert -1 <= symbol < 7, symbol
   assert -1 <= state < 7, state
   assert dir in [0, 1], dir
-- 
2.43.0


From 7cc815f0cc43940f5d8eda258acb35a577e2c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:35 +0000
Subject: [PATCH 08/27] fix: record did not store that a machine may be
 expanded without halt

---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index b2c74e8..f01f649 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -151,6 +151,7 @@ class TM_Record:
   def update_tm(self, tm_enum : TM_Enum.TM_Enum) -> None:
     self.tme = tm_enum
     write_tm(self.tme.tm, self.proto.tm)
+    self.proto.tm.allow_no_halt = self.tme.allow_no_halt
 
   def tm_enum(self):
     if not self.tme:
-- 
2.43.0


From cdba89e51b5c46a8aa84637b7d7a8fe85baacf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:03 +0000
Subject: [PATCH 09/27] fix: lexical normal form missed mirrored variants

The direction swap was chosen from the wrong cell (symbol 0 instead of the first
symbol of the new order), and never tried both ways when that cell halts, so
equivalent machines could get different normal forms.
---
 Code/LNF.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Code/LNF.py b/Code/LNF.py
index bc53e52..86f976c 100644
--- a/Code/LNF.py
+++ b/Code/LNF.py
@@ -10,9 +10,7 @@ from Macro import Turing_Machine
 import TNF
 
 
-def permute(old_tm, state_order, symbol_order):
-  # L < R
-  swap_dirs = (old_tm.trans_table[state_order[0]][0].dir_out == Turing_Machine.RIGHT)
+def permute(old_tm, state_order, symbol_order, swap_dirs):
   perm_tm = TNF.permute_table(old_tm, state_order, symbol_order, swap_dirs)
 
   # Find new state number corresponding to start state (old 0) and symbol.
@@ -42,12 +40,13 @@ def brute_lnf(old_tm):
   best_tm = old_tm
   for state_order in iter_perms(list(range(old_tm.num_states))):
     for symbol_order in iter_perms(list(range(old_tm.num_symbols))):
-      perm_tm = permute(old_tm, state_order, symbol_order)
-      perm_str = perm_tm.ttable_str()
-      # print(f" Debug: {state_order} / {perm_str}")
-      if perm_str < best_str:
-        best_str = perm_str
-        best_tm = perm_tm
+      for swap_dirs in (False, True):
+        perm_tm = permute(old_tm, state_order, symbol_order, swap_dirs)
+        perm_str = perm_tm.ttable_str()
+        # print(f" Debug: {state_order} / {perm_str}")
+        if perm_str < best_str:
+          best_str = perm_str
+          best_tm = perm_tm
   return best_tm
 
 
-- 
2.43.0


From 89af0e17abc73cde9feee74ba34489816d8d0b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:25 +0000
Subject: [PATCH 10/27] fix: compressed text record files were opened in binary
 mode

---
 Code/IO/Morphett.py | 4 ++--
 Code/IO/StdText.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 31ab454..9a9f15f 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -21,7 +21,7 @@ class Writer:
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
-      self.outfile = gzip.open(self.outfilename, "w")
+      self.outfile = gzip.open(self.outfilename, "wt")
     else:
       self.outfile = open(self.outfilename, "w")
     return self
@@ -59,7 +59,7 @@ class Reader:
 
   def __enter__(self):
     if ".gz" in self.infilename.suffixes:
-      self.infile = gzip.open(self.infilename, "r")
+      self.infile = gzip.open(self.infilename, "rt")
     else:
       self.infile = open(self.infilename, "r")
     return self
diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index b5b3c37..5ad55d7 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -36,7 +36,7 @@ class Writer:
   def __enter__(self):
     if self.outfilename:
       if ".gz" in self.outfilename.suffixes:
-        self.outfile = gzip.open(self.outfilename, "w")
+        self.outfile = gzip.open(self.outfilename, "wt")
       else:
         self.outfile = open(self.outfilename, "w")
     return self
@@ -80,7 +80,7 @@ class Reader:
   def __enter__(self):
     if self.infilename:
       if ".gz" in self.infilename.suffixes:
-        self.infile = gzip.open(self.infilename, "r")
+        self.infile = gzip.open(self.infilename, "rt")
       else:
         self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From 160a0454652c085214baf53004c49afd42dcf35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:25 +0000
Subject: [PATCH 11/27] fix: text writer wrote an empty line for machines too
 big for the text format

Reading such a file back stopped at that line and lost all later machines.
---
 Code/IO/StdText.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index 5ad55d7..a290173 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -45,8 +45,14 @@ class Writer:
     if self.outfilename:
       self.outfile.close()
 
+  def _write_ttable(self, tm : Turing_Machine.Simple_Machine) -> None:
+    ttable_str = tm.ttable_str()
+    if not ttable_str:
+      raise ValueError(f"Standard text format does not support {tm.num_states}x{tm.num_symbols} TMs")
+    self.outfile.write(ttable_str)
+
   def write_record(self, tm_record : TM_Record) -> None:
-    self.outfile.write(tm_record.tm().ttable_str())
+    self._write_ttable(tm_record.tm())
     halt_status = tm_record.proto.status.halt_status
     if halt_status.is_halting:
       # Remove _ from int strings so that we can sort them with `sort`.
@@ -59,7 +65,7 @@ class Writer:
 
   def write_tm(self, tm : Turing_Machine.Simple_Machine) -> None:
     """Convenience method to just write a TM directly without wrapping it in a record."""
-    self.outfile.write(tm.ttable_str())
+    self._write_ttable(tm)
     self.outfile.write("\n")
 
   def flush(self):
-- 
2.43.0


From bc97ba659b00f2522d919e7c1e2f828f64ba4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 12/27] fix: tree normal form depended on the cell under the
 head after halting

The symbol there is never read, so equivalent machines (mirrored, or with another
halting direction) got different normal forms.
---
 Code/TNF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/TNF.py b/Code/TNF.py
index 777d178..55d81d1 100755
--- a/Code/TNF.py
+++ b/Code/TNF.py
@@ -71,7 +71,7 @@ def to_TNF(tm : Turing_Machine.Simple_Machine, max_steps : int) -> Turing_Machin
       state_order.append(sim.state)
       unordered_states.remove(sim.state)
     cur_symb = sim.tape.read()
-    if cur_symb in unordered_symbols:
+    if not sim.halted and cur_symb in unordered_symbols:
       symbol_order.append(cur_symb)
       unordered_symbols.remove(cur_symb)
 
-- 
2.43.0


From c123c0b1af58fbd3542a3084c1c8d004f08d1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 13/27] fix: a given-up inner run could look like a repeated
 configuration

---
 Code/Macro/Turing_Machine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Code/Macro/Turing_Machine.py b/Code/Macro/Turing_Machine.py
index f3af892..1f99fde 100644
--- a/Code/Macro/Turing_Machine.py
+++ b/Code/Macro/Turing_Machine.py
@@ -123,6 +123,11 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
     elif dir == LEFT:
       pos -= 1
 
+    if trans.condition != RUNNING:
+      # Base machine stopped running (HALT, INF_REPEAT, etc.)
+      condition = trans.condition
+      condition_details = trans.condition_details + [pos]
+      break
     if (state, dir, pos, tape) == old_config:
       # Found a repeated config.
       condition = INF_REPEAT
@@ -143,11 +148,6 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       condition_details = [num_loops]
       break
 
-    if trans.condition != RUNNING:
-      # Base machine stopped running (HALT, INF_REPEAT, etc.)
-      condition = trans.condition
-      condition_details = trans.condition_details + [pos]
-      break
     if not (0 <= pos < len(tape)):
       # We ran off one end of the macro symbol. We're done.
       condition = RUNNING
-- 
2.43.0


From a3efaba1353d7570bfc0a522af8d806957511119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:30 +0000
Subject: [PATCH 14/27] fix: number of steps of a repeated rule was wrong for
 cubic or fractional step counts

---
 Code/Macro/Proof_System.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index 588f2e6..c9907bb 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -1470,14 +1470,14 @@ def series_sum(expr : Algebraic_Expression, k : Variable, N):
       total += rest * N
     elif k_pow == 1:
       # sum_{k=0}^{N-1}(coef * k) = coef * N(N-1)/2
-      total += (rest * N * (N - 1)) // 2
+      total += rest * ((N * (N - 1)) // 2)
     elif k_pow == 2:
       # sum_{k=0}^{N-1}(coef * k^2) = coef * N(N-1)(2N-1)/6
-      total += (rest * N * (N - 1) * (2 * N - 1)) // 6
+      total += rest * ((N * (N - 1) * (2 * N - 1)) // 6)
     elif k_pow == 3:
       # sum_{k=0}^{N-1}(coef * k^3) = coef * (N(N-1)/2)^2
       # https://proofwiki.org/wiki/Sum_of_Sequence_of_Cubes
-      total += ((rest * N * (N - 1)) // 2)**2
+      total += rest * ((N * (N - 1)) // 2)**2
     else:
       raise NotImplementedError(f"Cannot series sum {term} over {k}")
-  return total
+  return ae.simp_frac(total)
-- 
2.43.0


From 3a1ede0cfecce1b8914d371531dfc96c3ab0369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:30 +0000
Subject: [PATCH 15/27] fix: computing the minimum of an exponential rule could
 loop forever

---
 Code/Macro/Rule_Func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index c7cca12..63eee7a 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -134,4 +134,4 @@ class Pow_Func(Func):
           return min
         else:
           # TODO: Add tests that actually use this logic.
-          min = math.ceil(x_bound)
+          min = max(min + 1, math.ceil(x_bound))
-- 
2.43.0


From 33dcd02b1c9a7ca90493748e47b0839d57a1cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:33 +0000
Subject: [PATCH 16/27] fix: lin_detect_not_min crashed with UnboundLocalError
 for max_steps = 1

---
 Code/Lin_Recur_Detect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Code/Lin_Recur_Detect.py b/Code/Lin_Recur_Detect.py
index e816422..e192d84 100644
--- a/Code/Lin_Recur_Detect.py
+++ b/Code/Lin_Recur_Detect.py
@@ -45,6 +45,8 @@ def lin_detect_not_min(tm : Turing_Machine.Simple_Machine,
   sim = Direct_Simulator.DirectSimulator(tm)
   states_last_seen = {sim.state: sim.step_num}
   sim.step()
+  # Step up to which we have searched (in case we don't search at all below).
+  steps_reset = sim.step_num
 
   while (not max_steps or sim.step_num < max_steps) and not result.success:
     # Brent's algorithm for loop detection:
-- 
2.43.0


From 38b73ebf65b4002b657728125d40799c8b62301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:04 +0000
Subject: [PATCH 17/27] fix: backtracking condemned machines that halt on the
 very first step

---
 Code/Backtracking_Filter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 95fa922..fd235e4 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -116,7 +116,12 @@ def backtrack_single_halt(halt_state, halt_symbol,
   """Try backtrackying |steps| steps from this specific halting
   config. |to_state| is a list of transitions that lead to each state.
   |dir_to_symbol| indicates which direction symbols can be found."""
-  pos_configs = [Partial_Config(halt_state, halt_symbol)]
+  halt_config = Partial_Config(halt_state, halt_symbol)
+  if is_init_config(halt_config):
+    # The initial config itself halts.
+    return BacktrackResult(success = False, halted = True,
+                           max_steps = 0, max_width = 1, num_nodes = 0)
+  pos_configs = [halt_config]
   max_width_seen = len(pos_configs)
   num_nodes = 0
   for i in range(steps):
-- 
2.43.0


From fa983aa3f1f1897830693ff095e9d998b7889a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:08 +0000
Subject: [PATCH 18/27] fix: backtrack() always crashed (no IO.parse_ttable)
 and crashed on machines without halting transitions

---
 Code/Backtracking_Filter.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index fd235e4..13fa970 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -159,7 +159,8 @@ def backtrack_ttable(TTable, steps, max_width):
   giving up if there are more than |max_width| possible configs."""
   # Get initial ttable info.
   halts, to_state, dir_to_symbol = get_info(TTable)
-  combined_result = None
+  combined_result = BacktrackResult(success = True, halted = False,
+                                    max_steps = 0, max_width = 0, num_nodes = 0)
   # See if all halts cannot be reached
   for halt_state, halt_symbol in halts:
     for symbol_out, dir_out, state_out in TTable[halt_state]:
@@ -179,18 +180,26 @@ def backtrack_ttable(TTable, steps, max_width):
     if not result.success:
       return result
 
-    if combined_result:
-      combined_result.merge(result)
-    else:
-      combined_result = result
+    combined_result.merge(result)
 
   # If all halt states cannot be reached, we have succeeded!
   return combined_result
 
+def get_ttable(tm):
+  """Transition table as rows of (symbol_out, dir_out, state_out) cells."""
+  TTable = []
+  for state in range(tm.num_states):
+    row = []
+    for symbol in range(tm.num_symbols):
+      trans = tm.get_trans_object(symbol, state)
+      row.append((trans.symbol_out, trans.dir_out, trans.state_out))
+    TTable.append(row)
+  return TTable
+
 def backtrack(tm_record, num_steps, max_width):
   info = tm_record.proto.filter.backtrack
   with IO.Timer(info.result):
-    TTable = IO.parse_ttable(tm_record.tm().ttable_str())
+    TTable = get_ttable(tm_record.tm())
     # Run the simulator/filter on this machine
     result = backtrack_ttable(TTable, num_steps, max_width)
 
-- 
2.43.0


From eedf3987a86597de1e873a88a467373de50f5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:25 +0000
Subject: [PATCH 19/27] fix: CTL4 left out a symbol of the start tape and
 condemned halting machines

---
 Code/CTL4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/CTL4.py b/Code/CTL4.py
index 24f4419..7b6e189 100755
--- a/Code/CTL4.py
+++ b/Code/CTL4.py
@@ -114,7 +114,7 @@ def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, ve
         B = set([sim.tape.tape[d][1].symbol])
         if len(sim.tape.tape[d]) >= 3:
           A.add(sim.tape.tape[d][2].symbol)
-        if sim.tape.tape[d][-2].num > 2:
+        if sim.tape.tape[d][1].num > 2:
           A.add(sim.tape.tape[d][1].symbol)
       else:
         B = set([sim.tape.tape[d][2].symbol])
-- 
2.43.0


From 1a167770a26c9c6eb622158a1078589af7d76419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:49 +0000
Subject: [PATCH 20/27] fix: --no-prover crashed when the simulation ended
 (statistics of a prover that is not there)

---
 Code/Macro_Simulator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index ed3573a..d1c0974 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -175,13 +175,14 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
       if sim.step_num > 0:
         sim_info.result.log10_num_steps = int(math.log10(sim.step_num))
 
-      sim_info.result.num_rules_proven = sim.prover.num_rules
-      sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
-      sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
-      sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
-      sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
-      sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
-      sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
+      if sim.prover:
+        sim_info.result.num_rules_proven = sim.prover.num_rules
+        sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
+        sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
+        sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
+        sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
+        sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
+        sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
 
     # Various Unknown conditions
     if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:
-- 
2.43.0


From c25ba11e2594d28568b0c89c8756b3597f1baf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:49 +0000
Subject: [PATCH 21/27] fix: quasihalting record of a repeat inside a macro
 step counted start-up states as recurring

---
 Code/Macro/Simulator.py      |  7 +++++--
 Code/Macro/Turing_Machine.py | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/Code/Macro/Simulator.py b/Code/Macro/Simulator.py
index fbc64c0..315e9c2 100644
--- a/Code/Macro/Simulator.py
+++ b/Code/Macro/Simulator.py
@@ -181,8 +181,11 @@ class Simulator(object):
     # Apply transition
     if self.op_state == Turing_Machine.INF_REPEAT:
       self.inf_reason = io_pb2.INF_MACRO_STEP
-      # TODO(shawn): This is not 100% accurate. We should only ignore states involved in the repeat-in-place, but trans.states_last_seen could include some states before the repeat.
-      self.inf_recur_states = list(trans.states_last_seen.keys())
+      self.inf_recur_states = trans.inf_recur_states
+      # Some states may have been seen for the last time before the repeat.
+      if self.compute_steps and self.states_last_seen is not None:
+        for state, trans_last_seen in trans.states_last_seen.items():
+          self.states_last_seen[state] = self.step_num + trans_last_seen
     # Chain move
     elif trans.state_out == self.state and trans.dir_out == self.dir and \
        self.op_state == Turing_Machine.RUNNING:
diff --git a/Code/Macro/Turing_Machine.py b/Code/Macro/Turing_Machine.py
index 1f99fde..93b77a5 100644
--- a/Code/Macro/Turing_Machine.py
+++ b/Code/Macro/Turing_Machine.py
@@ -52,7 +52,7 @@ class Transition(object):
                condition,
                symbol_out, state_out, dir_out,
                num_base_steps, states_last_seen,
-               condition_details = None):
+               condition_details = None, inf_recur_states = None):
     self.condition = condition
     self.condition_details = condition_details if condition_details else []
     self.symbol_out = symbol_out
@@ -60,6 +60,8 @@ class Transition(object):
     self.dir_out = dir_out
     self.num_base_steps = num_base_steps
     self.states_last_seen = states_last_seen
+    # For INF_REPEAT: The states which will be visited over and over forever.
+    self.inf_recur_states = inf_recur_states
 
   # TODO: Deprecate
   def to_legacy_tuple(self):
@@ -99,11 +101,13 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
   num_loops = 0
   tape = list(start_tape)
   states_last_seen = {}
+  inf_recur_states = None
 
   # Once we run long enough use this to detect repeat-in-place.
   # If `old_config` is ever repeated, we know it will repeat forever.
   # Format: (state, dir, pos, tape)
   old_config = None
+  old_config_step = 0
   # Arbitrarily start looking for repeats after ~100 steps (~0.1ms).
   next_config_save = 128
 
@@ -127,11 +131,16 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Base machine stopped running (HALT, INF_REPEAT, etc.)
       condition = trans.condition
       condition_details = trans.condition_details + [pos]
+      inf_recur_states = trans.inf_recur_states
       break
     if (state, dir, pos, tape) == old_config:
       # Found a repeated config.
       condition = INF_REPEAT
       condition_details = [pos]
+      # Only the states seen since `old_config` are part of the repeat.
+      inf_recur_states = [seen_state for seen_state, last_seen
+                          in states_last_seen.items()
+                          if last_seen >= old_config_step]
       break
     if num_loops >= next_config_save:
       # Brent's algorithm for loop detection:
@@ -140,6 +149,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       #   any repeat which starts at `init_time` and has period `period`
       #   we'll detect the repeat by step `2 * max(init_time, period)`.
       old_config = (state, dir, pos, list(tape))
+      old_config_step = num_base_steps
       next_config_save *= 2
 
     if num_loops > max_loops:
@@ -160,7 +170,8 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
     # Block_Macro_Machine, but Backsymbol_Macro_Machine will need to modify
     # this and state_out.
     symbol_out=tape, state_out=state, dir_out=dir,
-    num_base_steps=num_base_steps, states_last_seen=states_last_seen)
+    num_base_steps=num_base_steps, states_last_seen=states_last_seen,
+    inf_recur_states=inf_recur_states)
 
 
 class Turing_Machine(object):
-- 
2.43.0


From 3c8b948201914155e8485bde7ad5976601a05af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:58 +0000
Subject: [PATCH 22/27] fix: queue sizes of the distributed work queue must be
 integers (slicing with a float raised TypeError)

---
 Code/MPI_Work_Queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/MPI_Work_Queue.py b/Code/MPI_Work_Queue.py
index d0ebed7..ae675ce 100644
--- a/Code/MPI_Work_Queue.py
+++ b/Code/MPI_Work_Queue.py
@@ -131,7 +131,7 @@ class MPI_Worker_Work_Queue(Work_Queue.Work_Queue):
     while comm.Iprobe(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE):
       self.max_queue_size = comm.recv(source=self.master,
                                       tag=UPDATE_MAX_QUEUE_SIZE)
-      self.target_queue_size = self.max_queue_size * 3 / 4
+      self.target_queue_size = self.max_queue_size * 3 // 4
     self.update_max_queue_size_time += self.time_diff()
 
   def _send_extra(self):
@@ -261,7 +261,7 @@ class Master(object):
       worker_queue_size[0] = len(self.master_queue)
       max_queue_size = max(sum(worker_queue_size) // len(worker_queue_size),
                            MAX_NUM_JOBS_PER_BATCH)
-      target_queue_size = max_queue_size * 3 / 4
+      target_queue_size = max_queue_size * 3 // 4
       if time.time() - self.last_update_time > self.update_interval:
         for rank in range(1, num_proc):
           if update_requests[rank]:
-- 
2.43.0


From 355166ecf94f555dcfa0f46233822a991ecb7d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:15 +0000
Subject: [PATCH 23/27] fix: only_unknown option of the Lin-recurrence
 enumerator was uninitialised without Boost

---
 cpp/src/lin_recur_enumerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index 7cc0ffc..42c5db8 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -35,6 +35,8 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     max_steps_(max_steps),
     proc_id_(proc_id)
 {
+  only_unknown = only_unknown_in;
+
 #ifdef BOOST_FOUND
   std::string file_suffix = "";
 
@@ -42,8 +44,6 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     file_suffix = ".gz";
   }
 
-  only_unknown = only_unknown_in;
-
   out_halt_stream_2_   .open(out_halt_filename    + file_suffix, std::ios::out | std::ios::binary);
   out_inf_stream_2_    .open(out_inf_filename     + file_suffix, std::ios::out | std::ios::binary);
   out_unknown_stream_2_.open(out_unknown_filename + file_suffix, std::ios::out | std::ios::binary);
-- 
2.43.0


From b44024db7fb236e7cda833c0f555d9a0f227eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:15 +0000
Subject: [PATCH 24/27] fix: C++ Lin-recurrence detection missed a halt on the
 first step for max_steps <= 1 and returned an uninitialised reference step

---
 cpp/src/lin_recur.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/src/lin_recur.cpp b/cpp/src/lin_recur.cpp
index 54e2bcd..a9e9b6a 100644
--- a/cpp/src/lin_recur.cpp
+++ b/cpp/src/lin_recur.cpp
@@ -45,7 +45,13 @@ LinRecurResult LinRecurDetect(const TuringMachine& tm, const long max_steps) {
   // TODO: Consider Seek(1024) or something like this to avoid lots of early copies.
   sim.Step();
 
-  long init_step_num;
+  // No reference configuration yet.
+  long init_step_num = 0;
+  if (sim.is_halted()) {
+    return {true, false, 0, 0, 0, sim.last_state(), sim.last_symbol(),
+            init_step_num, sim.step_num()};
+  }
+
   while (sim.step_num() < max_steps) {
     init_step_num = sim.step_num();
     const long steps_reset = 2 * init_step_num;
-- 
2.43.0


From 09aa366efacf280f49a9c7fa269b9dae9b85702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:15 +0000
Subject: [PATCH 25/27] fix: blank C++ machine with one state (or symbol) was
 expanded to transitions to a second one, out of the table

---
 cpp/src/turing_machine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 443fe8a..27d498b 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -1,5 +1,6 @@
 #include "turing_machine.h"
 
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 #include <string>
@@ -10,7 +11,8 @@ namespace busy_beaver {
 // Empty TM
 TuringMachine::TuringMachine(int num_states, int num_symbols)
     : num_states_(num_states), num_symbols_(num_symbols),
-      max_next_state_(1), max_next_symbol_(1),
+      max_next_state_(std::min(1, num_states - 1)),
+      max_next_symbol_(std::min(1, num_symbols - 1)),
       next_move_left_ok_(false), num_halts_(num_states * num_symbols),
       hereditary_name_() {
   const LookupResult empty_trans = {1, +1, HaltState, true};
-- 
2.43.0


From 7ef9b1dd31a706a8dc55899c3df31e92d005a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:15 +0000
Subject: [PATCH 26/27] fix: book-keeping of a C++ machine read from text
 counted undefined cells (symbol in use, left moves in a blank machine)

---
 cpp/src/turing_machine.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 27d498b..7b112b3 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -30,10 +30,14 @@ TuringMachine::TuringMachine(
   State max_state = 0;
   Symbol max_symbol = 0;
   int num_halts = 0;
+  bool any_decided = false;
   for (const auto& row : transitions_) {
     for (const LookupResult& trans : row) {
-      max_state = std::max(max_state, trans.state);
-      max_symbol = std::max(max_symbol, trans.symbol);
+      if (!trans.undecided) {
+        any_decided = true;
+        max_state = std::max(max_state, trans.state);
+        max_symbol = std::max(max_symbol, trans.symbol);
+      }
       if (trans.state < 0) {
         num_halts += 1;
       }
@@ -44,8 +48,8 @@ TuringMachine::TuringMachine(
   num_symbols_ = transitions_[0].size();
   max_next_state_ = std::min(max_state + 1, num_states_ - 1);
   max_next_symbol_ = std::min(max_symbol + 1, num_symbols_ - 1);
-  // Assume we aren't starting with completely blank TM.
-  next_move_left_ok_ = true;
+  // The first transition defined in a completely blank TM must move right.
+  next_move_left_ok_ = any_decided;
   num_halts_ = num_halts;
 }
 
-- 
2.43.0


From 11bfc2e9570297547b26fb7c5ebe3ccf32bb2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:42 +0000
Subject: [PATCH 27/27] fix: a rule proven with the help of other rules was
 accepted below the values those rules need

---
 Code/Macro/Proof_System.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index c9907bb..4d4d994 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -743,6 +743,7 @@ class Proof_System(object):
       gen_sim.prover = copy.copy(self)
       gen_sim.prover.frozen = True
       gen_sim.prover.past_configs = None
+      gen_sim.prover.requirements = []
       gen_sim.prover.verbose_prefix = gen_sim.verbose_prefix + "  "
 
     # Create a new tape which we will use to simulate general situation.
@@ -830,7 +831,17 @@ class Proof_System(object):
             return False
           elif len(vars) == 1:
             x = list(vars)[0]
-            min_val[x] = min(min_val[x], ae.min_val(block.num))
+            min_val[x] = min(min_val[x], max_shift(block.num))
+      # If rules were used, then their requirements have to be met as well.
+      if gen_sim.prover:
+        for expr in gen_sim.prover.requirements:
+          vars = variables(expr)
+          if len(vars) > 1:
+            return False
+          elif len(vars) == 1:
+            x = list(vars)[0]
+            min_val[x] = min(min_val[x], max_shift(expr + 1))
+        gen_sim.prover.requirements = []
 
     # Make sure finishing tape has the same stripped config as original.
     gen_stripped_config = strip_config(gen_sim.state, gen_sim.tape.dir,
@@ -1207,6 +1218,10 @@ class Proof_System(object):
       diff_steps = 0 # TODO: Make it None instead of a lie
       states_last_seen = None
 
+    # Inside a proof: Note what has to be non-negative for this to apply.
+    if self.frozen:
+      self.requirements += list(init_value.values())
+
     ## Alter the tape to account for applying rule.
     return_tape = new_tape.copy()
     for dir in range(2):
@@ -1272,6 +1287,11 @@ class Proof_System(object):
       return True, (ProverResult(INF_REPEAT, states_last_seen=states_last_seen),
                     disallow_in_meta_rule)
 
+    # Inside a proof: Note what has to be non-negative for this to apply.
+    if self.frozen:
+      self.requirements += [cur - min_val for var, min_val, cur in zip(
+        rule.var_list, rule.min_list, current_list) if var]
+
     # This rule applies at least once. Find the number of times it applies.
     num_reps = None
     limit_index = None
@@ -1428,6 +1448,19 @@ class Proof_System(object):
         print()
       return False, None
 
+def max_shift(expr):
+  """Bound m such that the expression (in one variable, x) stays positive for
+  all x >= 1 - m."""
+  if isinstance(expr, Algebraic_Expression) and len(expr.terms) == 1:
+    term = expr.terms[0]
+    if len(term.vars) == 1 and term.vars[0].pow == 1:
+      if term.coef == 1:
+        return expr.const
+      elif isinstance(expr.const, int) and term.coef > 1:
+        return (expr.const - 1) // term.coef + 1
+  # Otherwise, we only know about the values x >= 0 that we started from.
+  return min(1, ae.min_val(expr))
+
 def config_fits_min(var_list, min_list, current_list, assignment=None):
   """Does `current_list` attain the minimum values (in `min_list`)?
   sets `assignment` along the way."""
-- 
2.43.0

