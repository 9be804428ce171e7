----------------------------- MODULE WireKinds -----------------------------
(***************************************************************************)
(* Vocabulary of the wire tables (Schema*.tla): one record per wire field. *)
(*                                                                         *)
(*   N(n, w, e)       integer of w bytes, byte order e                     *)
(*   F(n, w, e)       IEEE float of w bytes, byte order e                  *)
(*   S(n, w)          text of exactly w bytes, padded right with blanks    *)
(*   SP(n, w, p, l)   text of exactly w bytes, pad char p, padded on the   *)
(*                    left iff l                                           *)
(*   V(n, w, e)       text preceded by its byte length (w bytes, order e)  *)
(*   L(n, w, e, el)   list preceded by its element count                   *)
(*   O(n, c)          nested message of class c                            *)
(*   D(n, sel)        nested message whose class the field sel selects     *)
(*   BLEN(n, w, e)    length of the dynamic part that follows, computed    *)
(*   CHK(n, w, e, a)  checksum of everything before it, algorithm a        *)
(***************************************************************************)
BE == "BE"
LE == "LE"

N(n, w, e)      == [k |-> "num",  n |-> n, w |-> w, e |-> e]
F(n, w, e)      == [k |-> "flt",  n |-> n, w |-> w, e |-> e]
SP(n, w, p, l)  == [k |-> "fix",  n |-> n, w |-> w, pad |-> p, left |-> l]
S(n, w)         == SP(n, w, 32, FALSE)
V(n, w, e)      == [k |-> "var",  n |-> n, w |-> w, e |-> e]
L(n, w, e, el)  == [k |-> "list", n |-> n, w |-> w, e |-> e, el |-> el]
O(n, c)         == [k |-> "obj",  n |-> n, c |-> c]
D(n, sel)       == [k |-> "dyn",  n |-> n, sel |-> sel]
BLEN(n, w, e)   == [k |-> "blen", n |-> n, w |-> w, e |-> e]
CHK(n, w, e, a) == [k |-> "chk",  n |-> n, w |-> w, e |-> e, alg |-> a]
=============================================================================
