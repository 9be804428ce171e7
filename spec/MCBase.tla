------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* What the bounded models share.  A model chooses initial states and a    *)
(* finite set of calls; every call has the effect FinProto!Eff gives it.   *)
(* TLC explores every reachable state and checks the model's laws, which   *)
(* are stated on the history of calls and outcomes without reference to    *)
(* Eff.  There are two ways to explore:                                    *)
(*   histories   every history up to Depth transitions                     *)
(*   edges       with VIEW: every state and transition once, of any depth;  *)
(*               each transition is written to the file EDGES, from which  *)
(*               programs for the real library are made (lib/models.py), so *)
(*               that the implementation executes every transition          *)
(***************************************************************************)
EXTENDS FinProto, Laws, Samples, Json, IOUtils, CSV

CONSTANT Depth        \* bound on the number of transitions; 0: none

VARIABLES who,        \* what the behaviour is about (a class, a size, ...)
          lib,        \* the library's state
          hist,       \* every call so far with its outcome
          steps       \* number of transitions

vars == << who, lib, hist, steps >>

\* what a caller sees of a message or bitmap right after a call that changes it
Seen(op, s) == CASE op.op \in {"enc", "dec", "new", "fill", "set", "tnew"} /\ "o" \in DOMAIN op /\ op.o \in DOMAIN s.heap -> s.heap[op.o].v
                 [] op.op \in {"bread", "bwrite"} -> s.bms[op.m].bits
                 [] OTHER -> << >>

Run(s0, ops) ==
  FoldLeft(LAMBDA acc, op : LET x == Eff(acc.s, op) IN
             [ s |-> x.s, h |-> Append(acc.h, [ op |-> op, ok |-> x.ok, ret |-> x.ret, seen |-> Seen(op, x.s), was |-> Seen(op, acc.s) ]) ],
           [ s |-> s0, h |-> << >> ], ops)

Write(x) == IF "EDGES" \in DOMAIN IOEnv THEN CSVWrite("%1$s", << ToJson(x) >>, IOEnv.EDGES) ELSE TRUE

\* begin with the calls ops
Start(w, ops, view(_, _)) ==
  LET r == Run(InitState, ops) IN
  /\ who = w /\ lib = TLCEval(r.s) /\ hist = TLCEval(r.h) /\ steps = 0
  /\ Write([ start |-> ToString(view(w, r.s)), ops |-> ops ])

\* one transition: the calls ops, one after another
Go(ops, view(_, _)) ==
  LET r == Run(lib, ops) IN
  /\ Depth = 0 \/ steps < Depth
  /\ lib' = TLCEval(r.s) /\ hist' = TLCEval(hist \o r.h) /\ steps' = steps + 1
  /\ UNCHANGED who
  /\ Write([ from |-> ToString(view(who, lib)), ops |-> ops, to |-> ToString(view(who, r.s)) ])

Is(i, name) == hist[i].op.op = name
At == 1..Len(hist)
=============================================================================
