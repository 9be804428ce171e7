------------------------------ MODULE MCReuse ------------------------------
(***************************************************************************)
(* Messages with a history, and their independence (C07, C08, C24): for    *)
(* every class, two messages decode a full, an empty and an incomplete     *)
(* encoding in any order, have fields changed, get encoded, and the        *)
(* buffers are overwritten and filled again.                               *)
(***************************************************************************)
EXTENDS MCBase

CONSTANT Subjects     \* which classes

Empty(b) == [ op |-> "buf", b |-> b, kind |-> "heap", ro |-> FALSE, d |-> << >>, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ]
Bytes1(c) == EncMsg(c, Rich(c, 1), DefaultReg).b
Bytes2(c) == EncMsg(c, Hollow(c, 1), DefaultReg).b
Bytes4(c) == EncMsg(c, Rich(c, 2), DefaultReg).b       \* with a part of another class
Bytes3(c) == Slice(Bytes1(c), 0, Len(Bytes1(c)) - 1)
Fresh(b, d) == << [ op |-> "buf", b |-> b, kind |-> "heap", ro |-> FALSE, d |-> d, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ] >>
Prefix(c) == << [ op |-> "new", o |-> "t", c |-> c ], [ op |-> "new", o |-> "u", c |-> c ], Empty("y") >>

View2(w, s) == << w, s.heap["t"].v, s.heap["u"].v >>
ModelView == View2(who, lib)

\* the fields that are changed by hand: those with contents of variable size, or the first one
Loose(c) == { i \in 1..Len(Tables[c]) : Tables[c][i].k \in {"var", "list", "dyn"} }
Target(c) == LET Ls == Loose(c) IN IF Ls = {} THEN (IF Tables[c] = << >> THEN {} ELSE {1}) ELSE { CHOOSE i \in Ls : \A j \in Ls : i <= j }

Classy == IF Subjects = {} THEN Classes ELSE Subjects
Init == \E c \in Classy : Start(c, Prefix(c), View2)

Read(o, d) == Go(Fresh("x", d) \o << [ op |-> "dec", o |-> o, b |-> "x" ],
       \* and, to compare with, by a message without a past
       [ op |-> "seek", b |-> "x", r |-> 0 ], [ op |-> "new", o |-> "n", c |-> who ], [ op |-> "dec", o |-> "n", b |-> "x" ],
       [ op |-> "scribble", b |-> "x" ], [ op |-> "release", b |-> "x" ] >>, View2)
Next ==
  \/ \E o \in {"t", "u"} : \E d \in { Bytes1(who), Bytes2(who), Bytes3(who) } \cup (IF who \in Owners THEN { Bytes4(who) } ELSE {}) : Read(o, d)
  \/ \E i \in Target(who) : Go(<< [ op |-> "set", o |-> "t", path |-> << i >>, val |-> Rich(who, 3)[i] ] >>, View2)
  \/ \E i \in Target(who) : Tables[who][i].k # "dyn" /\ Go(<< [ op |-> "set", o |-> "t", path |-> << i >>, val |-> Hollow(who, 3)[i] ] >>, View2)
  \/ \E i \in Target(who) : Tables[who][i].k = "list" /\ (IF lib.heap["t"].v[i] = Absent THEN TRUE ELSE Len(lib.heap["t"].v[i][1]) < 3)
                          /\ Go(<< [ op |-> "add", o |-> "t", path |-> << i >>, val |-> Rich(who, 4)[i][1][1] ] >>, View2)
  \/ Go(<< [ op |-> "enc", o |-> "t", b |-> "y" ], [ op |-> "clear", b |-> "y" ] >>, View2)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The laws, on the history alone *)
\* the bytes a decode read
BytesOf(i) == LET j == CHOOSE j \in 1..(i - 1) : Is(j, "buf") /\ \A k \in (j + 1)..(i - 1) : ~Is(k, "buf") IN hist[j].op.d
DependsOnBytesOnly == \A i, j \in At : Is(i, "dec") /\ Is(j, "dec") /\ BytesOf(i) = BytesOf(j) =>
  hist[i].ok = hist[j].ok /\ (hist[i].ok => hist[i].seen = hist[j].seen)
FullyReplaced == \A i \in At : Is(i, "dec") =>
  CASE BytesOf(i) = Bytes1(who) -> hist[i].ok /\ SameV(who, hist[i].seen, Back(who, EncMsg(who, Rich(who, 1), DefaultReg).v))
    [] BytesOf(i) = Bytes2(who) -> hist[i].ok /\ SameV(who, hist[i].seen, Back(who, EncMsg(who, Hollow(who, 1), DefaultReg).v))
    [] BytesOf(i) = Bytes4(who) -> hist[i].ok /\ SameV(who, hist[i].seen, Back(who, EncMsg(who, Rich(who, 2), DefaultReg).v))
    [] BytesOf(i) = Bytes3(who) -> ~hist[i].ok
    [] OTHER -> TRUE
\* a call about one message leaves the other alone
LastOf == { hist'[i].op : i \in (Len(hist) + 1)..Len(hist') }
Isolated == [][ \A o \in {"t", "u"} : (~ \E p \in LastOf : "o" \in DOMAIN p /\ p.o = o) => lib'.heap[o] = lib.heap[o] ]_vars
=============================================================================
