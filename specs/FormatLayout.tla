---------------------------- MODULE FormatLayout ----------------------------
(***************************************************************************)
(* How the formatter lays a document out, and what it must keep.            *)
(*                                                                          *)
(* A document is a stream of tokens, written left to right by one action    *)
(* per token:                                                               *)
(*   "i"  an item: key = scalar in a table, a scalar in an array            *)
(*   "[" "{"  an array / an inline table begins (with a key in a table)     *)
(*   "]"  the innermost array or inline table ends                          *)
(*   ","  a comma          "c"  a comment          "n"  a line break        *)
(*   "t" a header of a new table, "s" of a subtable of the last header,     *)
(*   "a" of one more element of an array of tables, "u" of a subtable of    *)
(*   that element                                                           *)
(* The formatter is a transducer: it takes the tokens one by one and writes *)
(* a stream of the same tokens with other line breaks.                      *)
(*                                                                          *)
(* State                                                                    *)
(*   doc    the tokens so far                                               *)
(*   ctx    open containers, innermost last: "r", "[" or "{"                *)
(*   at     where in its line the document is                               *)
(*   heads  headers so far                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,      \* longest document
          MaxDepth,    \* deepest nesting of arrays and inline tables
          MaxBreaks,   \* longest run of line breaks
          Tokens,      \* tokens used
          Starts,      \* documents to begin with (each valid up to a line start or an open container)
          G,           \* group-blank-lines-limit
          T,           \* table-blank-lines
          MinLen,      \* shortest document printed
          Defects

VARIABLES doc, ctx, at, heads
vars == <<doc, ctx, at, heads>>

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Min(a, b) == IF a < b THEN a ELSE b
Headers == {"t", "s", "a", "u"}
Opens == {"[", "{"}
Max0(n) == IF n > 0 THEN n ELSE 0

(* ------------------------------ the writer ----------------------------- *)
\* positions: "bol" a line of the top level begins; "eol" after something
\* complete there; "com" after a comment; "v" a value may come (or the end);
\* "vc" after a comma; "av" after a value inside a container
Top == Last(ctx)
AfterValue == IF Top = "r" THEN "eol" ELSE "av"
Can(x) ==
  CASE x = "n" -> at # "none"
    [] at = "com" -> x = "n"
    [] x = "c" -> TRUE
    [] x \in Headers -> at = "bol" /\ CASE x = "s" -> heads # <<>>
                                        \* scattered elements are brought together: see TableOrder
                                        [] x = "a" -> "a" \in {heads[i] : i \in DOMAIN heads}
                                                        => Last(heads) # "t" /\ \A i, j \in DOMAIN heads :
                                                              (i < j /\ heads[i] = "a") => heads[j] # "t"
                                        [] x = "u" -> heads # <<>> /\ Last(heads) = "a"
                                        [] OTHER -> TRUE
    [] x = "i" -> at \in {"bol", "v", "vc"}
    [] x \in Opens -> at \in {"bol", "v", "vc"} /\ Len(ctx) <= MaxDepth
    [] x = "," -> at = "av"
    [] x = "]" -> at \in {"v", "vc", "av"}

\* a comment ends its line; where the next line is depends on what came before
Before(d) == LET F[i \in 0..Len(d)] == IF i = 0 THEN "" ELSE IF d[i] \in {"n", "c"} THEN F[i-1] ELSE d[i]
             IN F[Len(d)]
AfterBreak(d, c) ==
  IF Last(c) = "r" THEN "bol"
  ELSE CASE Before(d) \in Opens -> "v"
         [] Before(d) = "," -> "vc"
         [] OTHER -> "av"

Breaks(d) == LET F[i \in 0..Len(d)] == IF i = 0 THEN 0 ELSE IF d[i] = "n" THEN F[i-1] + 1 ELSE 0 IN F[Len(d)]

StateOf(d) ==  \* writer state after a given start
  LET F[i \in 0..Len(d)] ==
        IF i = 0 THEN [ctx |-> <<"r">>, at |-> "bol", heads |-> <<>>]
        ELSE LET s == F[i-1] x == d[i] IN
             CASE x = "n" -> [s EXCEPT !.at = AfterBreak(SubSeq(d, 1, i), s.ctx)]
               [] x = "c" -> [s EXCEPT !.at = "com"]
               [] x \in Headers -> [s EXCEPT !.at = "eol", !.heads = Append(@, x)]
               [] x = "i" -> [s EXCEPT !.at = IF Last(s.ctx) = "r" THEN "eol" ELSE "av"]
               [] x \in Opens -> [s EXCEPT !.at = "v", !.ctx = Append(@, x)]
               [] x = "," -> [s EXCEPT !.at = "vc"]
               [] x = "]" -> [s EXCEPT !.ctx = Front(@),
                                       !.at = IF Last(Front(s.ctx)) = "r" THEN "eol" ELSE "av"]
  IN F[Len(d)]

Init == \E d \in Starts :
          LET s == StateOf(d) IN doc = d /\ ctx = s.ctx /\ at = s.at /\ heads = s.heads

Write(x) ==
  /\ Len(doc) < MaxLen
  /\ Can(x)
  /\ x = "n" => Breaks(doc) < MaxBreaks
  /\ doc' = Append(doc, x)
  /\ ctx' = IF x \in Opens THEN Append(ctx, x) ELSE IF x = "]" THEN Front(ctx) ELSE ctx
  /\ heads' = IF x \in Headers THEN Append(heads, x) ELSE heads
  /\ at' = CASE x = "n" -> AfterBreak(doc', ctx)
             [] x = "c" -> "com"
             [] x \in Headers -> "eol"
             [] x = "i" -> AfterValue
             [] x \in Opens -> "v"
             [] x = "," -> "vc"
             [] x = "]" -> IF Last(ctx') = "r" THEN "eol" ELSE "av"

Next == \E x \in Tokens : Write(x)
Spec == Init /\ [][Next]_vars

Complete == ctx = <<"r">>

(* ------------------------- reading a token stream ---------------------- *)
\* index of the "]" that closes the container opened at i
Close(d, i) ==
  LET F[j \in i..Len(d)] ==  \* depth after token j
        IF j = i THEN 1
        ELSE F[j-1] + (IF d[j] \in Opens THEN 1 ELSE IF d[j] = "]" THEN -1 ELSE 0)
  IN CHOOSE j \in (i+1)..Len(d) : F[j] = 0 /\ \A m \in i..(j-1) : F[m] # 0

\* line breaks right before token i
Nl(d, i) == LET F[j \in 0..Len(d)] == IF j = 0 THEN 0 ELSE IF d[j] = "n" THEN F[j-1] + 1 ELSE 0 IN F[i-1]

\* the last token before i that is neither comment nor line break
PrevSig(d, i) == Before(SubSeq(d, 1, i-1))

\* a comment on the line of what stands before it
Trailing(d, i) == d[i] = "c" /\ i > 1 /\ d[i-1] # "n"

\* the comment lines from i on end, without a blank line, right above token x
RECURSIVE Above(_, _)
Above(d, i) == \* the token that the block of comment lines starting at i stands right above ("" if none)
  IF i + 2 > Len(d) \/ d[i+1] # "n" \/ d[i+2] = "n" THEN ""
  ELSE IF d[i+2] = "c" THEN Above(d, i + 2) ELSE d[i+2]

\* (* what must be kept: the tokens but commas and line breaks, and how each
\* comment stands to its neighbours *)
Kind(d, i) ==
  IF d[i] # "c" THEN d[i]
  ELSE IF Trailing(d, i) THEN "trailing"
  ELSE IF Above(d, i) \in {"i"} \cup Opens \cup Headers THEN "leading"
  ELSE "dangling"
Sig(d) == LET F[i \in 0..Len(d)] == IF i = 0 THEN <<>>
                                    ELSE IF d[i] \in {"n", ","} THEN F[i-1]
                                    ELSE Append(F[i-1], Kind(d, i))
          IN F[Len(d)]

(* ----------------------------- the formatter --------------------------- *)
\* an array or inline table is written over several lines iff it holds a
\* comment, ends in a comma, is divided by a blank line or holds one that is
RECURSIVE Multi(_, _)
Multi(d, i) ==
  LET j == Close(d, i) IN
  \/ \E m \in (i+1)..(j-1) : d[m] = "c"
  \/ PrevSig(d, j) = ","
  \/ \E m \in (i+1)..(j-1) : d[m] \in {"i"} \cup Opens /\ PrevSig(d, m) = "," /\ Nl(d, m) > 1
  \/ \E m \in (i+1)..(j-1) : d[m] \in Opens /\ Multi(d, m)

Rep(x, n) == [k \in 1..n |-> x]

\* tables: name of a header, as a path
HeadPath(hs) ==
  LET F[i \in 0..Len(hs)] ==
        IF i = 0 THEN <<>>
        ELSE CASE hs[i] = "t" -> <<"t" \o ToString(i)>>
               [] hs[i] = "a" -> <<"a">>
               [] hs[i] = "u" -> <<"a", "u">>
               [] hs[i] = "s" -> Append(F[i-1], "s" \o ToString(i))
  IN F[Len(hs)]
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* w: out      what is written
\*    multi    per open container: is it written over several lines
\*    first    nothing is written in the innermost container / table body yet
\*    heads    headers so far
\*    kvs      items written since the last header
\*    coms     dangling comments written since the last header
\*    dang    the last thing written is a dangling comment
\*    lead     the header's leading comments are being written
Start == [out |-> <<>>, multi |-> <<>>, first |-> TRUE, heads |-> <<>>, kvs |-> 0, coms |-> 0, lead |-> FALSE, dang |-> FALSE]

\* line breaks before something in the body of a table or a container
\* is the next token but comments and line breaks a comma
BeforeComma(d, i) ==
  \E j \in (i+1)..Len(d) : d[j] = "," /\ \A m \in (i+1)..(j-1) : d[m] \in {"c", "n"}

Sep(w, nl) == IF w.first THEN (IF w.out = <<>> THEN <<>> ELSE <<"n">>)
              ELSE Rep("n", 1 + Min(Max0(nl - 1), G))

\* a comment at the end of a table must not come to stand right above the
\* next header, where it would be that header's comment
Room(w, n) == IF n = 0 /\ w.dang /\ "no_room" \notin Defects THEN 1 ELSE n

\* line breaks before a header (or its leading comments)
HeadSep(w, nl, h, withLead) ==
  IF w.out = <<>> THEN <<>>
  ELSE IF w.heads = <<>>
       THEN IF w.kvs > 0 THEN Rep("n", 1 + Room(w, T)) ELSE Rep("n", 1 + Min(Max0(nl - 1), G))
  ELSE LET p == HeadPath(w.heads)
           q == HeadPath(Append(w.heads, h))
           isAot == h = "a"
           wasAot == Last(w.heads) = "a"
           wide == \/ w.kvs > 0
                   \/ ~IsPrefix(p, q)
                   \/ w.coms > 0
                   \/ (isAot /\ wasAot /\ p = q)
                   \/ (~(isAot /\ wasAot) /\ withLead)
       IN Rep("n", 1 + (IF wide THEN Room(w, T) ELSE 0))

\* the last token before i that is no line break
LastReal(d, i) == LET F[j \in 0..Len(d)] == IF j = 0 THEN 0 ELSE IF d[j] = "n" THEN F[j-1] ELSE j IN F[i-1]

InBox(w) == w.multi # <<>>
Wide(w) == InBox(w) /\ Last(w.multi)

Step(d, i, w) ==
  LET x == d[i]
      nl == Nl(d, i)
      prev == PrevSig(d, i)
      add(s) == [w EXCEPT !.out = @ \o s]
  IN
  CASE x = "n" -> w
    [] x = "c" ->
         IF Trailing(d, i) THEN add(<<"c">>)
         ELSE IF w.lead THEN add(<<"n", "c">>)
         ELSE IF ~InBox(w) /\ Above(d, i) \in Headers
              THEN [w EXCEPT !.out = @ \o HeadSep(w, nl, Above(d, i), TRUE) \o <<"c">>, !.lead = TRUE]
         ELSE [w EXCEPT !.out = @ \o (IF InBox(w) /\ BeforeComma(d, i) THEN <<"n">> ELSE Sep(w, nl)) \o <<"c">>,
                        !.first = FALSE,
                        !.coms = IF InBox(w) \/ Kind(d, i) = "leading" THEN @ ELSE @ + 1]
    [] x \in Headers ->
         [w EXCEPT !.out = @ \o (IF w.lead THEN <<"n">> ELSE HeadSep(w, nl, x, FALSE)) \o <<x>>,
                   !.heads = Append(@, x), !.first = TRUE, !.kvs = 0, !.coms = 0, !.lead = FALSE]
    [] x = "i" \/ x \in Opens ->
         LET sep == IF ~InBox(w) \/ Wide(w) THEN Sep(w, nl) ELSE <<>>
             w1 == [w EXCEPT !.out = @ \o sep \o <<x>>, !.first = FALSE,
                             !.kvs = IF InBox(w) THEN @ ELSE @ + 1]
         IN IF x = "i" THEN w1
            ELSE [w1 EXCEPT !.multi = Append(@, Multi(d, i)), !.first = TRUE]
    [] x = "," ->
         LET p == LastReal(d, i) IN
         IF ~Wide(w) \/ d[p] # "c" THEN add(<<",">>)
         \* a comment after the value goes behind the comma, if there is no other
         ELSE IF Trailing(d, p) /\ d[p-1] \notin {"n"} /\ ~(i < Len(d) /\ d[i+1] = "c")
              THEN [w EXCEPT !.out = Front(@) \o <<",", "c">>]
         ELSE add(<<"n", ",">>)
    [] x = "]" -> [w EXCEPT !.out = @ \o (IF ~Wide(w) THEN <<"]">>
                                    ELSE IF w.first THEN <<"n", "n", "]">> ELSE <<"n", "]">>),
                            !.multi = Front(@), !.first = FALSE]

Run(d) == LET F[i \in 0..Len(d)] ==
                IF i = 0 THEN Start
                ELSE IF d[i] = "n" THEN F[i-1]
                ELSE [Step(d, i, F[i-1]) EXCEPT !.dang = Kind(d, i) = "dangling"]
          IN F[Len(d)]
Formatted(d) == LET o == Run(d).out IN IF o = <<>> THEN o ELSE Append(o, "n")

(* ------------------------------ properties ----------------------------- *)
Keeps == Complete => Sig(Formatted(doc)) = Sig(doc)
Idempotent == Complete => Formatted(Formatted(doc)) = Formatted(doc)

(* ------------------------------- vectors ------------------------------- *)
Emit == (Complete /\ Len(doc) >= MinLen) =>
  PrintT("@@" \o ToJson([doc |-> doc, out |-> Formatted(doc), sig |-> Sig(doc), g |-> G, t |-> T]))
=============================================================================
