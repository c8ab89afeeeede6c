------------------------------ MODULE Positions ------------------------------
(***************************************************************************)
(* Positions in a text, as tombi and as the editor count them.              *)
(*                                                                          *)
(* State                                                                    *)
(*   text  the characters so far, with line ends "lf" and "crlf"            *)
(*   enc   the encoding that was agreed on                                  *)
(***************************************************************************)
EXTENDS Graphemes, TLC, Json

CONSTANTS Chars, Ends_, Encodings, MaxLen, Defects

VARIABLES text, enc
vars == <<text, enc>>

RECURSIVE Lines(_)
Lines(t) ==
  IF t = <<>> THEN << <<>> >>
  ELSE LET rest == Lines(Tail(t)) IN
       IF Head(t) \in {"lf", "crlf"} THEN << <<>> >> \o rest
       ELSE << <<Head(t)>> \o Head(rest) >> \o Tail(rest)

Count(s) == Clusters(s, Len(s))
\* the characters that the first col columns have
Before(s, col) ==
  IF col >= Count(s) THEN Len(s)
  ELSE CHOOSE n \in Ends(s) : Clusters(s, n) = col
ToEditor(s, col) == IF "chars" \in Defects THEN (IF col > Len(s) THEN Len(s) ELSE col)
                    ELSE Width(enc, s, Before(s, col))
\* a position inside of a cluster is before it, one behind the line at its end
FromEditor(s, ch) ==
  LET fit == {n \in Ends(s) : Width(enc, s, n) <= ch}
      n == CHOOSE m \in fit : \A k \in fit : k <= m
  IN Clusters(s, n)

Init == text = <<>> /\ enc \in Encodings
Add(c) == Len(text) < MaxLen /\ text' = Append(text, c) /\ UNCHANGED enc
Next == \E c \in Chars \cup Ends_ : Add(c)
Spec == Init /\ [][Next]_vars

(* ---- properties --------------------------------------------------------- *)
TypeOK == Len(text) <= MaxLen
Each(P(_)) == LET ls == Lines(text) IN \A i \in DOMAIN ls : P(ls[i])
RoundTrip == Each(LAMBDA s : \A col \in 0..Count(s) : FromEditor(s, ToEditor(s, col)) = col)
Grows == Each(LAMBDA s : \A col \in 1..Count(s) : ToEditor(s, col - 1) < ToEditor(s, col))
WholeLine == Each(LAMBDA s : ToEditor(s, Count(s)) = Width(enc, s, Len(s)))
NeverBehind == Each(LAMBDA s : \A ch \in 0..Width(enc, s, Len(s)) + 2 : ToEditor(s, FromEditor(s, ch)) <= ch)
\* in ASCII, all count the same
Plain == Each(LAMBDA s : (\A i \in DOMAIN s : s[i] = "a") => \A col \in 0..Len(s) : ToEditor(s, col) = col)

Emit ==
  LET ls == Lines(text) IN
  PrintT("@@" \o ToJson([
    text |-> text, enc |-> enc,
    to |-> [i \in DOMAIN ls |-> [c \in 1..Count(ls[i]) + 2 |-> ToEditor(ls[i], c - 1)]],
    from |-> [i \in DOMAIN ls |-> [c \in 1..Width(enc, ls[i], Len(ls[i])) + 3 |-> FromEditor(ls[i], c - 1)]]]))
=============================================================================
