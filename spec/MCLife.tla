------------------------------- MODULE MCLife -------------------------------
(***************************************************************************)
(* Whose the buffers are (C23): on a buffer of every kind, frames are      *)
(* written, read, read in part, read with an unknown type, checksummed and *)
(* encoding fails, in any order, until the owner releases it.              *)
(***************************************************************************)
EXTENDS MCBase

Kinds == { "heap", "direct", "pooled", "pooldir", "safe", "comp", "slice", "dirty" }
ROKinds == { "ro", "rodir", "wrap" }
Subj == << "sample_RootPacket", "sse_SseBinary", "szse_SzseBinary", "bjse_BjseBinary", "risk_RcBinary", "szse_NewOrder" >>
Good(w) == EncMsg(w, Hollow(w, 2), DefaultReg).b
Odd(w) == EncMsg(w, WithPart(w, Hollow(w, 2), IF w \in Frames THEN 12345 ELSE << 33 >>, Hollow(w, 2)[CHOOSE i \in FieldsOfKind(w, "dyn") : TRUE]), DefaultReg).b

Prefix(w) ==
  << [ op |-> "new", o |-> "m", c |-> w[1] ], [ op |-> "fill", o |-> "m", v |-> Hollow(w[1], 2) ],
     [ op |-> "new", o |-> "t", c |-> w[1] ], [ op |-> "new", o |-> "n", c |-> "sample_NestedPacket" ],
     [ op |-> "svc", s |-> "k", alg |-> "CRC32", impl |-> "crc32" ],
     [ op |-> "buf", b |-> "x", kind |-> w[2], ro |-> w[2] \in {"ro", "rodir"}, d |-> Good(w[1]), r |-> 0, c |-> "", v |-> << >>, at |-> 0 ] >>
Alive(s) == "x" \in DOMAIN s.bufs
View2(w, s) == << w, IF Alive(s) THEN << s.bufs["x"].d, s.bufs["x"].r >> ELSE << >> >>
ModelView == View2(who, lib)
Init == \E i \in 1..Len(Subj) : \E k \in (IF i <= 2 THEN Kinds \cup ROKinds ELSE {"pooled", "direct"}) : Start(<< Subj[i], k >>, Prefix(<< Subj[i], k >>), View2)

Fits == Len(lib.bufs["x"].d) <= 2 * Len(Good(who[1]))
Grows == who[2] \in Kinds /\ Fits
Next == Alive(lib) /\
  \/ Grows /\ Go(<< [ op |-> "enc", o |-> "m", b |-> "x" ] >>, View2)
  \/ who[2] \in Kinds /\ Go(<< [ op |-> "enc", o |-> "n", b |-> "x" ], [ op |-> "clear", b |-> "x" ] >>, View2)     \* fails: a required part is missing
  \/ Grows /\ Go(<< [ op |-> "write", b |-> "x", d |-> Odd(who[1]), c |-> "", v |-> << >> ], [ op |-> "dec", o |-> "t", b |-> "x" ], [ op |-> "clear", b |-> "x" ] >>, View2)
  \/ Go(<< [ op |-> "dec", o |-> "t", b |-> "x" ] >>, View2)
  \/ Go(<< [ op |-> "seek", b |-> "x", r |-> 1 ], [ op |-> "dec", o |-> "t", b |-> "x" ], [ op |-> "seek", b |-> "x", r |-> 0 ] >>, View2)
  \/ Go(<< [ op |-> "calc", s |-> "k", b |-> "x" ], [ op |-> "verify", s |-> "k", b |-> "x", x |-> << 0, 0, 0, 0 >> ] >>, View2)
  \/ Go(<< [ op |-> "release", b |-> "x" ] >>, View2)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
OwnedByCaller == Alive(lib) => lib.bufs["x"].ref = 1
LastOps == { hist'[i].op.op : i \in (Len(hist) + 1)..Len(hist') }
ReadersDoNotWrite == [][ LastOps \subseteq {"dec", "calc", "verify", "seek"} => lib'.bufs["x"].d = lib.bufs["x"].d ]_vars
ChecksumsDoNotRead == [][ LastOps \subseteq {"calc", "verify"} => lib'.bufs = lib.bufs ]_vars
FailuresHappen == \A i \in At : Is(i, "enc") /\ hist[i].op.o = "n" => ~hist[i].ok
=============================================================================
