------------------------------- MODULE MCFix -------------------------------
(***************************************************************************)
(* Fixed-width texts (C11), exhaustively for small widths: every text of   *)
(* up to Chars characters over the pad character, a letter, a blank, a two *)
(* byte, a three byte and a four byte character, in every width up to      *)
(* Width, padded on either side.                                           *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Chars, Width

Alphabet(pad) == { pad, 65, 32, 233, 20013, 128512 }
Texts(pad) == UNION { [ 1..n -> Alphabet(pad) ] : n \in 0..Chars }
Settings == { << n, pad, left >> : n \in 0..Width, pad \in { 48, 32, 0 }, left \in BOOLEAN }

Prefix == << [ op |-> "buf", b |-> "x", kind |-> "heap", ro |-> FALSE, d |-> << >>, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ] >>
View2(w, s) == << w >>
ModelView == << who, hist >>       \* every call is a state of its own
Init == \E q \in Settings : Start(q, Prefix, View2)

Try(t) == Go(<< [ op |-> "fixw", b |-> "x", t |-> t, n |-> who[1], pad |-> who[2], left |-> who[3] ],
                [ op |-> "fixr", b |-> "x", n |-> who[1], pad |-> who[2], left |-> who[3] ], [ op |-> "clear", b |-> "x" ] >>, View2)
Next == Try(<< >>) \/ \E t \in Texts(who[2]) : Try(<< TLCEval(t) >>)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The laws, without reference to EncFix and DecFix *)
TextAt(i) == IF hist[i].op.t = << >> THEN << >> ELSE hist[i].op.t[1]
Pads(b) == \A i \in 1..Len(b) : b[i] = who[2]
Writes == { i \in At : Is(i, "fixw") }
ExactWidth == \A i \in Writes : Len(hist[i].ret) = who[1]
\* the longest run of whole characters that fits, and padding on the padded side only
WholeCharacters == \A i \in Writes :
  LET t == TextAt(i)
      fits == { k \in 0..Len(t) : Len(Utf8(SubSeq(t, 1, k))) <= who[1] }
      k == CHOOSE k \in fits : \A j \in fits : j <= k
      body == Utf8(SubSeq(t, 1, k))
      n == Len(body)
      b == hist[i].ret
  IN IF who[3] THEN SubSeq(b, who[1] - n + 1, who[1]) = body /\ Pads(SubSeq(b, 1, who[1] - n))
     ELSE SubSeq(b, 1, n) = body /\ Pads(SubSeq(b, n + 1, who[1]))
\* what is read is the bytes without exactly the run of padding on the padded side
StripsOnePad == \A i \in Writes :
  LET b == hist[i].ret
      got == hist[i + 1].ret
      bb == Utf8(got)
      cut == who[1] - Len(bb)
  IN /\ hist[i + 1].ok /\ cut >= 0
     /\ IF who[3] THEN /\ SubSeq(b, cut + 1, who[1]) = bb /\ Pads(SubSeq(b, 1, cut)) /\ (bb = << >> \/ bb[1] # who[2])
        ELSE /\ SubSeq(b, 1, Len(bb)) = bb /\ Pads(SubSeq(b, Len(bb) + 1, who[1])) /\ (bb = << >> \/ bb[Len(bb)] # who[2])
\* a text that fits and does not begin or end with padding comes back
FitsComesBack == \A i \in Writes :
  LET t == TextAt(i) IN
  Len(Utf8(t)) <= who[1] /\ (t = << >> \/ t[IF who[3] THEN 1 ELSE Len(t)] # who[2]) => hist[i + 1].ret = t
=============================================================================
