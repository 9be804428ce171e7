------------------------------ MODULE MCRelay ------------------------------
(***************************************************************************)
(* A frame is received, perhaps with a length header or a checksum that is *)
(* wrong, changed in place, given another body or none, and sent on, in    *)
(* any order and any number of times (C03, C04, C05, C22): what is sent    *)
(* depends on what the message holds now, not on what was received.        *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Share, Pick

\* who = << frame, number of the type >>: every class of body once
Once(w) == { i \in 1..Len(DefaultTypes[w]) : \A j \in 1..(i - 1) : DefaultTypes[w][j][2] # DefaultTypes[w][i][2] }
Frame == who[1]
Type == DefaultTypes[who[1]][who[2]]
DynAt(w) == CHOOSE i \in FieldsOfKind(w, "dyn") : TRUE
Val(w, k, n) == LET t == DefaultTypes[w][k] IN WithPart(w, Rich(w, n), t[1], << t[2], IF n = 1 THEN Rich(t[2], 1) ELSE Hollow(t[2], 0) >>)
Peer(n) == EncMsg(Frame, Val(Frame, who[2], n), DefaultReg).b
\* the same with other lengths and checksums
Wrong(d) == LET bs == FieldsOfKind(Frame, "blen") cs == FieldsOfKind(Frame, "chk")
                d1 == IF bs = {} THEN d ELSE LET o == Offset(Frame, CHOOSE i \in bs : TRUE) IN [ d EXCEPT ![o + 4] = 7, ![o + 1] = 3 ] IN
            IF cs = {} THEN d1 ELSE [ d1 EXCEPT ![Len(d1)] = 90 ]

Empty(b, k) == [ op |-> "buf", b |-> b, kind |-> k, ro |-> FALSE, d |-> << >>, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ]
Piece(d) == [ op |-> "write", b |-> "x", d |-> d, c |-> "", v |-> << >> ]
Receive(d) == << [ op |-> "clear", b |-> "x" ], Piece(d), [ op |-> "dec", o |-> "t", b |-> "x" ] >>
Prefix(w) == << Empty("x", "heap"), Empty("y", << "heap", "direct", "slice" >>[1 + (w[2] % 3)]), [ op |-> "new", o |-> "t", c |-> w[1] ] >>
View2(w, s) == << w, s.heap["t"].v >>
ModelView == View2(who, lib)
Init == \E w \in Frames : \E k \in Once(w) : k % Share = Pick % Share /\ Start(<< w, k >>, Prefix(<< w, k >>), View2)

Body == lib.heap["t"].v[DynAt(Frame)]
Set(path, x) == << [ op |-> "set", o |-> "t", path |-> path, val |-> x ] >>
\* the places in the body that are changed: its first field, and one of variable size (or its last)
Places(c) == LET t == Tables[c] vs == { i \in 1..Len(t) : t[i].k \in {"var", "list"} } IN
             (IF t = << >> THEN {} ELSE {1}) \cup (IF t = << >> THEN {} ELSE IF vs = {} THEN {Len(t)} ELSE { CHOOSE i \in vs : \A j \in vs : i <= j })
Plain(c) == { i \in Places(c) : Tables[c][i].k \notin {"obj", "dyn"} /\ \A d \in FieldsOfKind(c, "dyn") : Tables[c][d].sel # Tables[c][i].n }

Next ==
  \/ \E n \in {1, 2} : Go(Receive(Peer(n)), View2)
  \/ FieldsOfKind(Frame, "blen") # {} /\ Go(Receive(Wrong(Peer(1))), View2)
  \/ Body # Absent /\ \E i \in Plain(Body[1]) : \E k \in {1, 3} : Go(Set(<< DynAt(Frame), i >>, Dom(Tables[Body[1]][i])[k]), View2)
  \/ Body # Absent /\ Go(Set(<< DynAt(Frame) >>, Absent), View2)
  \/ Go(Set(<< DynAt(Frame) >>, << Type[2], Rich(Type[2], 1) >>), View2)
  \/ Go(<< [ op |-> "enc", o |-> "t", b |-> "y" ], [ op |-> "clear", b |-> "y" ] >>, View2)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Encs == { i \in At : Is(i, "enc") }
Accepted == \A i \in Encs : hist[i].ok
LengthHeader == \A i \in Encs : FieldsOfKind(Frame, "blen") # {} => LenOk(Frame, hist[i].ret, hist[i].seen)
Trailer == \A i \in Encs : FieldsOfKind(Frame, "chk") # {} => ChkOk(Frame, hist[i].ret, hist[i].was, hist[i].seen, lib.reg)
OnlyComputed == \A i \in Encs : Given(Frame, hist[i].seen) = Given(Frame, hist[i].was)
\* what is sent is what the message holds
SelAt == IndexOf(Frame, Tables[Frame][DynAt(Frame)].sel)
Current == \A i \in Encs : hist[i].was[DynAt(Frame)] # Absent /\ hist[i].was[SelAt] = SelVal(Tables[Frame][SelAt], Type[1]) =>
              LET r == DecMsg(Frame, hist[i].ret, 0, lib.tm) IN
              r.ok /\ r.p = Len(hist[i].ret) /\ SameV(Frame, Given(Frame, r.v), Given(Frame, Back(Frame, hist[i].was)))
SameBytes == \A i, j \in Encs : Given(Frame, hist[i].was) = Given(Frame, hist[j].was)
                              /\ (FieldsOfKind(Frame, "blen") # {} \/ hist[i].was = hist[j].was) => hist[i].ret = hist[j].ret
=============================================================================
