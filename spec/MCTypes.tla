------------------------------ MODULE MCTypes ------------------------------
(***************************************************************************)
(* Type registries (C09, C10, C08): for every class with a dynamic part,   *)
(* two assigned selectors and one unassigned one; registering, replacing   *)
(* and removing them in any order, creating bodies, decoding messages that *)
(* carry them and, where it exists, the reverse lookup.                    *)
(***************************************************************************)
EXTENDS MCBase

TypesOf(w) == DefaultTypes[w]
KeyA(w) == TypesOf(w)[1][1]
KeyB(w) == TypesOf(w)[Len(TypesOf(w))][1]
SelField(w) == LET i == CHOOSE i \in FieldsOfKind(w, "dyn") : TRUE IN Tables[w][IndexOf(w, Tables[w][i].sel)]
KeyX(w) == IF SelField(w).k = "num" THEN 12345 ELSE Cps("X9Z")
Keys(w) == { KeyA(w), KeyB(w), KeyX(w) }
KeyN(w, n) == CASE n = 1 -> KeyA(w) [] n = 2 -> KeyB(w) [] OTHER -> KeyX(w)
\* two body classes, of the protocol or the user's own
Pick(w, n) == IF Len(TypesOf(w)) > 1 \/ n = 1 THEN TypesOf(w)[IF n = 1 THEN 1 ELSE Len(TypesOf(w))][2]
              ELSE "user_Blob"

B(n, k) == << "b11", "b12", "b21", "b22", "b31", "b32" >>[2 * (n - 1) + k]
Frame(w, n, k) == EncMsg(w, WithPart(w, Hollow(w, 0), KeyN(w, n), << Pick(w, k), Hollow(Pick(w, k), 0) >>), DefaultReg).b

Prefix(w) ==
  Flat(<< << [ op |-> "new", o |-> "t", c |-> w ] >>,
    Flat([ n \in 1..3 |-> [ k \in 1..2 |->
       [ op |-> "buf", b |-> B(n, k), kind |-> "heap", ro |-> FALSE, d |-> Frame(w, n, k), r |-> 0, c |-> "", v |-> << >>, at |-> 0 ] ] ]) >>)

RevOf(w, s) == IF w = "sse_SseBinary" THEN s.rev ELSE EmptyFn
View2(w, s) == << w, { s.tm[w][i] : i \in 1..Len(s.tm[w]) }, RevOf(w, s) >>
ModelView == View2(who, lib)

Init == \E w \in Owners \ NoRegistration : Start(w, Prefix(w), View2)

Probe(w) == IF w # "sse_SseBinary" THEN << >>
            ELSE << [ op |-> "tof", c |-> Pick(w, 1) ], [ op |-> "tof", c |-> Pick(w, 2) ] >>

Next ==
  \/ \E n \in 1..3, k \in 1..2 :
        Go(<< [ op |-> "treg", w |-> who, k |-> KeyN(who, n), c |-> Pick(who, k) ] >> \o Probe(who), View2)
  \/ \E n \in 1..3 : Go(<< [ op |-> "trem", w |-> who, k |-> KeyN(who, n) ] >> \o Probe(who), View2)
  \/ \E n \in 1..3 : Go(<< [ op |-> "tnew", w |-> who, k |-> KeyN(who, n), o |-> "n" ] >>, View2)
  \/ \E n \in 1..3, k \in 1..2 :
        Go(<< [ op |-> "seek", b |-> B(n, k), r |-> 0 ], [ op |-> "dec", o |-> "t", b |-> B(n, k) ] >>, View2)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The laws, on the history alone *)
Touches(i, key) == hist[i].op.op \in {"treg", "trem"} /\ hist[i].op.k = key
Latest(key, to) == LET T == { i \in 1..(to - 1) : Touches(i, key) } IN
                   IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : j <= i
\* the class assigned to key before call to; "" if none
Assigned(key, to) ==
  LET i == Latest(key, to) IN
  CASE i = 0 -> IF HasKey(TypesOf(who), key) THEN ClassOf(TypesOf(who), key) ELSE ""
    [] Is(i, "trem") -> ""
    [] OTHER -> hist[i].op.c

LatestRegistrationWins == \A i \in At :
  /\ Is(i, "tnew") => IF Assigned(hist[i].op.k, i) = "" THEN ~hist[i].ok
                      ELSE hist[i].ok /\ hist[i].ret = Assigned(hist[i].op.k, i) /\ hist[i].seen = InitV(hist[i].ret)
  /\ Is(i, "trem") => hist[i].ret = (Assigned(hist[i].op.k, i) # "")

\* a decoded message has a part of the class its own selector is assigned to; without one it is rejected
DecodedBody == \A i \in At : Is(i, "dec") =>
  LET n == CHOOSE n \in 1..3 : \E k \in 1..2 : B(n, k) = hist[i].op.b
      a == Assigned(KeyN(who, n), i)
      d == CHOOSE d \in FieldsOfKind(who, "dyn") : TRUE
  IN IF a = "" THEN ~hist[i].ok /\ hist[i].ret = "type"
     ELSE hist[i].ok => hist[i].seen[d][1] = a

\* the reverse lookup only ever names a selector that creates the class
ReverseSound == \A i \in At : Is(i, "tof") => hist[i].ret = NoId \/ Assigned(hist[i].ret, i) = hist[i].op.c
\* ... and finds the latest registration as long as it stands
ReverseComplete == \A i \in At : Is(i, "tof") =>
  LET R == { j \in 1..(i - 1) : Is(j, "treg") /\ hist[j].op.c = hist[i].op.c } IN
  R # {} => LET j == CHOOSE j \in R : \A k \in R : k <= j IN
            Latest(hist[j].op.k, i) = j => hist[i].ret = hist[j].op.k

OthersUntouched == \A w \in Owners \ {who} : lib.tm[w] = DefaultTypes[w]
=============================================================================
