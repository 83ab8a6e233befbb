"""Mathematical Turing machine: the specification side.

SO, DO, NS: the transition table (symbol written, direction 0=L/1=R, next
state; -1 = halt) as uninterpreted functions, i.e. an arbitrary machine.
Trace: St(t), Po(t), Ta(t,p) = state, head position, cell p after t steps.
"""
import z3
from pyvc.engine import *
I = z3.IntSort()
SO = z3.Function("SO", I, I, I)      # (symbol, state) -> symbol written
DO = z3.Function("DO", I, I, I)      # -> 0 (left) / 1 (right)
NX = z3.Function("NX", I, I, I)      # -> next state, -1 halts

def table_wf(sym, st):
    """The table only moves left or right."""
    return Or(DO(sym, st) == 0, DO(sym, st) == 1)

def spec_step(view, pos, state):
    """One step of the mathematical machine; returns (view', pos', state')."""
    sym = view(pos)
    w = SO(sym, state)
    return (lambda p: z3.If(p == pos, w, view(p))), z3.If(DO(sym, state) == 1, pos + 1, pos - 1), NX(sym, state)

St = z3.Function("St", I, I)
Po = z3.Function("Po", I, I)
Ta = z3.Function("Ta", I, I, I)

def unfold(E, t):
    """Definition of the trace at step t -> t+1 (only while running)."""
    sym = Ta(t, Po(t))
    E.assume(Implies(And(t >= 0, St(t) != -1), And(
        St(t + 1) == NX(sym, St(t)),
        Po(t + 1) == z3.If(DO(sym, St(t)) == 1, Po(t) + 1, Po(t) - 1),
        table_wf(sym, St(t)))))
    E.assume(Forall([I], lambda p: Implies(And(t >= 0, St(t) != -1),
             Ta(t + 1, p) == z3.If(p == Po(t), SO(sym, St(t)), Ta(t, p))), patterns=lambda p: [Ta(t + 1, p)]))
