----------------------------- MODULE TokenSoup -----------------------------
(***************************************************************************)
(* The syntax of TOML over its tokens, as a push-down automaton, and every  *)
(* sequence of tokens, whether it can be continued to a document or not.    *)
(*                                                                          *)
(* State                                                                    *)
(*   toks   the tokens so far                                               *)
(*   m      the automaton: [mode, stack, ok10, ok11]                        *)
(*          mode   what may come next ("dead": nothing any more)            *)
(*          stack  the arrays and inline tables around it, and around       *)
(*                 these "doc"                                              *)
(*          ok10   so far nothing that only TOML v1.1.0 allows              *)
(*   stray  whether there is a comma outside brackets                       *)
(*   extra  how many tokens have been added after the first wrong one       *)
(*                                                                          *)
(* Tokens: k a bare key, v a word that is a key or a value, s a string (a   *)
(* key or a value), t a multi-line string, = . , [ ] { }, _ white space,    *)
(* n a newline, c a comment (up to the end of its line), x what is no token *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Starts, MaxLen, MaxExtra, MaxDepth, Tokens, Defects

VARIABLES toks, m, extra, stray
vars == <<toks, m, extra, stray>>

Keys == {"k", "v", "s"}
Scalars == {"v", "s", "t"}
Words == {"k", "v"}

Dead(a) == [a EXCEPT !.mode = "dead"]
To(a, mode) == [a EXCEPT !.mode = mode]
Only11(a) == [a EXCEPT !.ok10 = FALSE]
Top(a) == a.stack[Len(a.stack)]
AfterValue(a) == To(a, CASE Top(a) = "doc" -> "eol" [] Top(a) = "arr" -> "A1" [] OTHER -> "I1")
Push(a, c, mode) == [a EXCEPT !.stack = Append(@, c), !.mode = mode]
Pop(a) == AfterValue([a EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)])
\* a comment ends with its line and changes nothing else
Comment(a) == To(a, "c" \o a.mode)
Value(a, t) ==
  CASE t \in Scalars -> AfterValue(a)
    [] t = "["       -> Push(a, "arr", "A0")
    [] t = "{"       -> Push(a, "inl", "I0")
    [] OTHER         -> Dead(a)

\* a comma after a whole line is read over and left to the linter to refuse
Stray(a, t) == t = "," /\ Len(a.stack) = 1
Step(a, t) ==
  IF a.mode = "dead" \/ t = "x" THEN Dead(a)
  ELSE CASE
     a.mode \in {"cline", "ceol"} -> IF t = "n" THEN To(a, "line") ELSE Dead(a)
  [] a.mode = "cA0" -> IF t = "n" THEN To(a, "A0") ELSE Dead(a)
  [] a.mode = "cA1" -> IF t = "n" THEN To(a, "A1") ELSE Dead(a)
  [] a.mode = "cI0" -> IF t = "n" THEN To(a, "I0") ELSE Dead(a)
  [] a.mode = "cI1" -> IF t = "n" THEN To(a, "I1") ELSE Dead(a)
  [] a.mode = "cI2" -> IF t = "n" THEN To(a, "I2") ELSE Dead(a)
  [] t = "_" -> CASE a.mode = "H0" -> To(a, "H1")       \* [ [ opens no array of tables
                  [] a.mode = "HHe" -> Dead(a)          \* nor does ] ] close one
                  [] OTHER -> a
  [] a.mode = "line" -> CASE t = "n" -> a
                          [] t = "c" -> Comment(a)
                          [] t \in Keys -> To(a, "K")
                          [] t = "[" -> To(a, "H0")
                          [] OTHER -> Dead(a)
  [] a.mode = "eol" -> CASE t = "n" -> To(a, "line")
                         [] t = "c" -> Comment(a)
                         [] OTHER -> Dead(a)
  \* headers: [ key ] and [[ key ]]
  [] a.mode = "H0" -> CASE t = "[" -> To(a, "HH1") [] t \in Keys -> To(a, "H2") [] OTHER -> Dead(a)
  [] a.mode = "H1" -> IF t \in Keys THEN To(a, "H2") ELSE Dead(a)
  [] a.mode = "H2" -> CASE t = "." -> To(a, "H1") [] t = "]" -> To(a, "eol") [] OTHER -> Dead(a)
  [] a.mode = "HH1" -> IF t \in Keys THEN To(a, "HH2") ELSE Dead(a)
  [] a.mode = "HH2" -> CASE t = "." -> To(a, "HH1") [] t = "]" -> To(a, "HHe") [] OTHER -> Dead(a)
  [] a.mode = "HHe" -> IF t = "]" THEN To(a, "eol") ELSE Dead(a)
  \* key = value
  [] a.mode = "K" -> CASE t = "." -> To(a, "Kd") [] t = "=" -> To(a, "V") [] OTHER -> Dead(a)
  [] a.mode = "Kd" -> IF t \in Keys THEN To(a, "K") ELSE Dead(a)
  [] a.mode = "V" -> Value(a, t)
  \* arrays: before a value or the end, after a value
  [] a.mode = "A0" -> CASE t = "n" -> a [] t = "c" -> Comment(a) [] t = "]" -> Pop(a) [] OTHER -> Value(a, t)
  [] a.mode = "A1" -> CASE t = "n" -> a [] t = "c" -> Comment(a) [] t = "]" -> Pop(a)
                        [] t = "," -> To(a, "A0") [] OTHER -> Dead(a)
  \* inline tables: empty, after a member, after a comma
  [] a.mode = "I0" -> CASE t = "n" -> Only11(a) [] t = "c" -> Comment(Only11(a)) [] t = "}" -> Pop(a)
                        [] t \in Keys -> To(a, "K") [] OTHER -> Dead(a)
  [] a.mode = "I1" -> CASE t = "n" -> Only11(a) [] t = "c" -> Comment(Only11(a)) [] t = "}" -> Pop(a)
                        [] t = "," -> To(a, "I2") [] OTHER -> Dead(a)
  [] a.mode = "I2" -> CASE t = "n" -> Only11(a) [] t = "c" -> Comment(Only11(a))
                        [] t = "}" -> IF "trailing" \in Defects THEN Pop(a) ELSE Pop(Only11(a))
                        [] t \in Keys -> To(a, "K") [] OTHER -> Dead(a)
  [] OTHER -> Dead(a)

Fresh == [mode |-> "line", stack |-> <<"doc">>, ok10 |-> TRUE]
RECURSIVE Run(_, _)
Run(a, s) == IF s = <<>> THEN a ELSE Run(Step(a, Head(s)), Tail(s))

Last == IF toks = <<>> THEN "n" ELSE toks[Len(toks)]
\* words side by side are one word; a comment takes everything up to the newline
MayFollow(t) ==
  /\ ~(Last \in Words /\ t \in Words)
  /\ ~(Last = "_" /\ t = "_")
  /\ ~(Last = "t" /\ t \in {"s", "t"})      \* five quotes can end one string
  /\ Last = "c" => t = "n"
  /\ Last = "x" => t \in {"n", "_", ",", "]"}

Init == \E s \in Starts : toks = s /\ m = Run(Fresh, s) /\ extra = 0 /\ stray = FALSE
Add == /\ Len(toks) < MaxLen
       /\ \E t \in Tokens :
            /\ MayFollow(t)
            /\ t \in {"[", "{"} => Len(m.stack) <= MaxDepth
            /\ m.mode = "dead" => extra < MaxExtra
            /\ extra' = IF m.mode = "dead" THEN extra + 1 ELSE 0
            /\ toks' = Append(toks, t)
            /\ m' = Step(m, t)
            /\ stray' = (stray \/ Stray(m, t))
Next == Add
Spec == Init /\ [][Next]_vars

Accepted == m.mode \in {"line", "eol", "cline", "ceol"}

(* ------------------------------ properties ------------------------------ *)
TypeOK == Len(m.stack) >= 1 /\ m.stack[1] = "doc"
Count(t) == Cardinality({i \in DOMAIN toks : toks[i] = t})
\* what any reader can see of a document
Balanced == Accepted => Count("[") = Count("]") /\ Count("{") = Count("}") /\ m.stack = <<"doc">>
EqualsPerValue == Accepted => (Count("t") > 0 => Count("=") > 0) /\ Count("x") = 0
\* v1.1.0 only adds the freedom inside braces
OnlyBraces == (Accepted /\ Count("{") = 0) => m.ok10
NoTrailingComma10 == (Accepted /\ m.ok10) =>
  \A i \in 1..Len(toks) - 1 : ~(toks[i] = "," /\ toks[i + 1] = "}")
\* once dead, always dead
Final == [][m.mode = "dead" => m'.mode = "dead"]_vars

Emit == PrintT("@@" \o ToJson([toks |-> toks, stray |-> stray, v10 |-> Accepted /\ m.ok10, v11 |-> Accepted]))
=============================================================================
