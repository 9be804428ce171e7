------------------------------ MODULE MCNoise -------------------------------
(***************************************************************************)
(* Input that no peer sends (C25): encodings in which one byte is replaced, *)
(* dropped or doubled, at every position, and for small classes every       *)
(* string over a few bytes.  Each input is read whole, read again with      *)
(* exactly the bytes that were taken, and read without the last of these.   *)
(***************************************************************************)
EXTENDS MCBase

CONSTANTS Subjects, Share, Pick, Len1

Classy == IF Subjects = {} THEN Classes ELSE Subjects
Prefix(c) == << [ op |-> "new", o |-> "t", c |-> c ] >>
View2(w, s) == << w >>
ModelView == << who, hist >>
Init == \E c \in Classy : Start(c, Prefix(c), View2)

Alphabet == << 0, 1, 32, 127, 128, 255 >>
Kind(k) == << "heap", "dirty", "wrap", "slice", "direct", "ro", "comp" >>[1 + (k % 7)]
Buf1(b, d, k) == [ op |-> "buf", b |-> b, kind |-> Kind(k), ro |-> Kind(k) = "ro", d |-> d, r |-> 0, c |-> "", v |-> << >>, at |-> 0 ]
Whole(n) == EncMsg(who, IF n = 1 THEN Rich(who, 1) ELSE Hollow(who, 2), DefaultReg).b

Replaced(d, i, x) == [ d EXCEPT ![i] = x ]
Dropped(d, i) == Slice(d, 0, i - 1) \o Slice(d, i, Len(d))
Doubled(d, i) == Slice(d, 0, i) \o Slice(d, i - 1, Len(d))
\* the result of reading all of d
Taken(d) == LET r == DecMsg(who, d, 0, DefaultTypes) IN IF r.ok THEN r.p ELSE Len(d)

Try(d, k) ==
  LET p == Taken(d) IN
  Go(<< Buf1("x", d, k), [ op |-> "dec", o |-> "t", b |-> "x" ],
        Buf1("y", Slice(d, 0, p), k + 1), [ op |-> "new", o |-> "n", c |-> who ], [ op |-> "dec", o |-> "n", b |-> "y" ] >>
     \o (IF p = 0 THEN << >>
         ELSE << Buf1("z", Slice(d, 0, p - 1), k + 2), [ op |-> "dec", o |-> "t", b |-> "z" ] >>), View2)

Tiny == Len(EncMsg(who, Hollow(who, 1), DefaultReg).b) <= 4
Next ==
  \/ \E n \in {1, 2} : \E i \in 1..Len(Whole(n)) : \E j \in 1..8 :
       (i + 3 * j + n) % Share = Pick /\
       Try(IF j <= 6 THEN Replaced(Whole(n), i, Alphabet[j]) ELSE IF j = 7 THEN Dropped(Whole(n), i) ELSE Doubled(Whole(n), i), i + j)
  \/ IF Tiny THEN \E l \in 0..Len1 : \E d \in [1..l -> {0, 1, 2, 65, 195}] : Try(d, l) ELSE FALSE
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Decs == { i \in At : Is(i, "dec") }
InputOf(i) == LET j == CHOOSE j \in 1..(i - 1) : Is(j, "buf") /\ hist[j].op.b = hist[i].op.b IN hist[j].op.d
\* nothing beyond the input is read
InBounds == \A b \in DOMAIN lib.bufs : lib.bufs[b].r <= Len(lib.bufs[b].d)
\* the outcome depends on the bytes taken, and on every one of them being there
Second == { i \in Decs : hist[i].op.b = "y" }
Third == { i \in Decs : hist[i].op.b = "z" }
OnlyTheTaken == \A i \in Second : hist[i - 3].ok => hist[i].ok /\ hist[i].seen = hist[i - 3].seen
AllNeeded == \A i \in Third : hist[i - 2].ok => ~hist[i].ok /\ hist[i].ret = "short"
\* what was read, written out again, is read the same
Plain(d) == \A i \in 1..Len(d) : d[i] < 128
ReadTheSame == \A i \in Decs : hist[i].ok /\ Plain(InputOf(i)) =>
  LET again == EncMsg(who, hist[i].seen, DefaultReg).b
      r == DecMsg(who, again, 0, DefaultTypes) IN
  r.ok /\ r.p = Len(again) /\ Given(who, r.v) = Given(who, hist[i].seen)
=============================================================================
