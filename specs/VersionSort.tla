----------------------------- MODULE VersionSort -----------------------------
(***************************************************************************)
(* The natural order of version strings.                                   *)
(*                                                                         *)
(* A string is cut into chunks: a separator (_ or -), a comparison         *)
(* operator, a run of digits, or text up to the next of these.  Two        *)
(* strings are compared chunk by chunk; numbers by value, and only if all  *)
(* else is the same does the first difference in leading zeros decide.     *)
(*                                                                         *)
(* Strings are sequences of character codes.                               *)
(*                                                                         *)
(* State: the two strings, what is left of them, the tie so far (0 none,   *)
(* -1 the left one has more zeros, 1 the right one), the result (2: none   *)
(* yet).                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pieces,   \* strings that are put together
          MaxPieces, MinPieces,
          LawSize,  \* check the laws of an order on strings of so many pieces
          Defects

VARIABLES phase, a, b, na, nb, ra, rb, tie, result
vars == <<phase, a, b, na, nb, ra, rb, tie, result>>

Digit(c) == c \in 48..57
Sep(c) == c \in {95, 45}
\* === >= <= == != ~= ~> > < = ^ ~, the longest first
Ops == <<<<61,61,61>>, <<62,61>>, <<60,61>>, <<61,61>>, <<33,61>>, <<126,61>>, <<126,62>>,
         <<62>>, <<60>>, <<61>>, <<94>>, <<126>>>>
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
OpAt(s) == LET hits == {i \in DOMAIN Ops : Starts(s, Ops[i])}
           IN IF hits = {} THEN 0 ELSE Len(Ops[CHOOSE i \in hits : \A j \in hits : i <= j])
RECURSIVE DigitRun(_)
DigitRun(s) == IF s # <<>> /\ Digit(s[1]) THEN 1 + DigitRun(Tail(s)) ELSE 0
RECURSIVE TextRun(_)
TextRun(s) == IF s = <<>> \/ Sep(s[1]) \/ Digit(s[1]) \/ OpAt(s) > 0 THEN 0 ELSE 1 + TextRun(Tail(s))
\* length of the first chunk
Width(s) == IF Sep(s[1]) THEN 1 ELSE IF Digit(s[1]) THEN DigitRun(s)
            ELSE IF OpAt(s) > 0 THEN OpAt(s) ELSE TextRun(s)
Kind(s) == IF Sep(s[1]) THEN "sep" ELSE IF Digit(s[1]) THEN "num" ELSE IF OpAt(s) > 0 THEN "op" ELSE "text"
First(s) == SubSeq(s, 1, Width(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Sign(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
RECURSIVE Lex(_, _)
Lex(x, y) == IF x = <<>> /\ y = <<>> THEN 0
             ELSE IF x = <<>> THEN -1 ELSE IF y = <<>> THEN 1
             ELSE IF x[1] # y[1] THEN Sign(x[1], y[1]) ELSE Lex(Tail(x), Tail(y))
RECURSIVE Zeros(_)
Zeros(s) == IF s # <<>> /\ s[1] = 48 THEN 1 + Zeros(Tail(s)) ELSE 0
Value(x, y) == LET u == Drop(x, Zeros(x)) v == Drop(y, Zeros(y))
               IN IF Len(u) # Len(v) THEN Sign(Len(u), Len(v)) ELSE Lex(u, v)
Rank(k) == CASE k = "op" -> 0 [] k = "sep" -> 1 [] OTHER -> 2
\* two chunks
Chunk(x, y) ==
    LET kx == Kind(x) ky == Kind(y) fx == First(x) fy == First(y)
    IN IF Rank(kx) # Rank(ky) THEN Sign(Rank(kx), Rank(ky))
       ELSE IF kx = "sep" THEN 0
       ELSE IF kx = "num" /\ ky = "num" THEN IF "digits" \in Defects THEN Lex(fx, fy) ELSE Value(fx, fy)
       ELSE Lex(fx, fy)
ZeroTie(x, y) == IF Kind(x) = "num" /\ Kind(y) = "num"
                 THEN Sign(Zeros(First(y)), Zeros(First(x))) ELSE 0

(* ------------------------------ the machine ----------------------------- *)
Init == /\ phase = "build" /\ a = <<>> /\ b = <<>> /\ na = 0 /\ nb = 0
        /\ ra = <<>> /\ rb = <<>> /\ tie = 0 /\ result = 2
Build == /\ phase = "build"
         /\ \E p \in Pieces :
              \/ na < MaxPieces /\ nb = 0 /\ a' = a \o p /\ na' = na + 1 /\ UNCHANGED <<b, nb>>
              \/ nb < MaxPieces /\ na >= MinPieces /\ b' = b \o p /\ nb' = nb + 1 /\ UNCHANGED <<a, na>>
         /\ UNCHANGED <<phase, ra, rb, tie, result>>
Start == /\ phase = "build" /\ na >= MinPieces /\ nb >= MinPieces
         /\ phase' = "run" /\ ra' = a /\ rb' = b
         /\ UNCHANGED <<a, b, na, nb, tie, result>>
Step == /\ phase = "run" /\ result = 2
        /\ IF ra = <<>> /\ rb = <<>> THEN result' = tie /\ UNCHANGED <<ra, rb, tie>>
           ELSE IF ra = <<>> THEN result' = -1 /\ UNCHANGED <<ra, rb, tie>>
           ELSE IF rb = <<>> THEN result' = 1 /\ UNCHANGED <<ra, rb, tie>>
           ELSE IF Chunk(ra, rb) # 0 THEN result' = Chunk(ra, rb) /\ UNCHANGED <<ra, rb, tie>>
           ELSE /\ ra' = Drop(ra, Width(ra)) /\ rb' = Drop(rb, Width(rb))
                /\ tie' = IF tie = 0 THEN ZeroTie(ra, rb) ELSE tie
                /\ UNCHANGED result
        /\ UNCHANGED <<phase, a, b, na, nb>>
Next == Build \/ Start \/ Step
Spec == Init /\ [][Next]_vars

(* ------------------------------- the order ------------------------------ *)
RECURSIVE Order(_, _, _)
Order(x, y, t) ==
    IF x = <<>> /\ y = <<>> THEN t
    ELSE IF x = <<>> THEN -1 ELSE IF y = <<>> THEN 1
    ELSE IF Chunk(x, y) # 0 THEN Chunk(x, y)
    ELSE Order(Drop(x, Width(x)), Drop(y, Width(y)), IF t = 0 THEN ZeroTie(x, y) ELSE t)
Cmp(x, y) == Order(x, y, 0)
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE Strings(n - 1) \cup {s \o p : s \in Strings(n - 1), p \in Pieces}
\* evaluated once, in the first state
Laws == phase = "build" /\ na = 0 /\ nb = 0 =>
    LET S == Strings(LawSize)
    IN /\ \A x \in S : Cmp(x, x) = 0
       /\ \A x, y \in S : Cmp(x, y) = 0 - Cmp(y, x)
       /\ \A x, y \in S : Cmp(x, y) # 1 => \A z \in S : Cmp(y, z) # 1 => Cmp(x, z) # 1
\* the machine computes the order, and numbers are compared by their values
Right == result # 2 => result = Cmp(a, b)
ByValue == result # 2 /\ a # <<>> /\ b # <<>> /\ DigitRun(a) = Len(a) /\ DigitRun(b) = Len(b)
           => (Value(a, b) # 0 => result = Value(a, b))
Emit == result = 2 \/ PrintT("@@" \o ToJson([a |-> a, b |-> b, order |-> result]))
=============================================================================
