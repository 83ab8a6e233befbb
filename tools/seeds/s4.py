SEEDS = [
 dict(id="c13-negative-tie", property="C13", needs="two equal negative tower integers",
      breaks="x > y is true for equal negative tower integers (and x <= y false)",
      edits=[("Code/Exp_Int.py", "      return not (-self >= -other)\n", "      return not (-self > -other)\n")],
      demo='''
from Exp_Int import exp_int, try_eval
n = 0
for b in (2, 3, 6):
  for e in (1, 3, 10):
    for c in (-1, -2, 5, -7):
      for k in (0, 1, -4, 9):
        x, y = exp_int(b, e) * c + k, exp_int(b, e) * c + k
        v = c * b**e + k
        for z, w in ((y, v), (y + 1, v + 1), (v, v), (v - 1, v - 1), (-y, -v)):
          assert (x > z, x >= z, x < z, x <= z) == (v > w, v >= w, v < w, v <= w), (x, z, v, w); n += 1
'''),
]
