-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Messages as a compliant peer sends them: encodes the values of the file *)
(* IN by the specification and writes the bytes to the file OUT.  On the   *)
(* way the codec functions themselves are checked on every value:          *)
(*   RoundTrip   what was encoded decodes to the same message, with        *)
(*               exactly its bytes consumed                                *)
(*   Relay       the decoded message encodes to the same bytes             *)
(*   NoPrefix    no strict prefix decodes                                  *)
(***************************************************************************)
EXTENDS FinProto, Json, IOUtils

In == TLCEval(ndJsonDeserialize(IOEnv.IN))

ASSUME TLCSet(7, << >>)          \* what is to be written

VARIABLES pos, cur

GenInit == pos = 0 /\ cur = [ c |-> "", v |-> << >>, d |-> << >> ]

GenNext == /\ pos < Len(In)
           /\ pos' = pos + 1
           /\ LET x == In[pos + 1]
                  e == EncMsg(x.c, x.v, DefaultReg)
              IN /\ cur' = [ c |-> x.c, v |-> e.v, d |-> e.b ]
                 /\ TLCSet(7, Append(TLCGet(7), [ d |-> e.b, v |-> e.v ]))
                 /\ IF pos' = Len(In) THEN ndJsonSerialize(IOEnv.OUT, TLCGet(7)) ELSE TRUE

GenSpec == GenInit /\ [][GenNext]_<< pos, cur >>

Fits == pos > 0 /\ Carriable(cur.c, cur.v, DefaultTypes)

RoundTrip == Fits =>
  LET r == DecMsg(cur.c, cur.d, 0, DefaultTypes) IN
  r.ok /\ r.p = Len(cur.d) /\ SameV(cur.c, r.v, Back(cur.c, cur.v))

Relay == Fits =>
  LET r == DecMsg(cur.c, cur.d, 0, DefaultTypes) IN
  EncMsg(cur.c, r.v, DefaultReg).b = cur.d

Cuts(n) == { k \in { 0, 1, n \div 3, n \div 2, n - 2, n - 1 } : k >= 0 /\ k < n }
NoPrefix == Fits => \A k \in Cuts(Len(cur.d)) : ~DecMsg(cur.c, Slice(cur.d, 0, k), 0, DefaultTypes).ok

=============================================================================
