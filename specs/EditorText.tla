----------------------------- MODULE EditorText -----------------------------
(***************************************************************************)
(* Where things of a document are for the editor.                           *)
(*                                                                          *)
(* State                                                                    *)
(*   enc    the encoding that was agreed on                                 *)
(*   lines  the lines so far: key-values with a comment or not, comments,   *)
(*          headers of tables and blank ones, with white space in between;  *)
(*          directives ("# tombi:x"), and as the first line of a text that  *)
(*          of its schema ("#:schema ./x") or of its own ("#:tombi x")      *)
(*                                                                          *)
(* The keys, values and comments hold characters of every kind. What the    *)
(* server tells (symbols, semantic tokens) has to be at the units that the  *)
(* specification counts, and the edits of a formatting request are applied  *)
(* in those units.                                                          *)
(***************************************************************************)
EXTENDS Graphemes, TLC, Json

CONSTANTS Chars, Gaps, Newlines, Encodings, Kinds, MaxLines, MaxChars, Defects

VARIABLES enc, lines
vars == <<enc, lines>>

Empty(k, nl) == [kind |-> k, lead |-> "", key |-> <<>>, before |-> "", after |-> "", val |-> <<>>, gap |-> "", com |-> <<>>, nl |-> nl]
Last == lines[Len(lines)]
First == {"link", "doc"}
Begin(k, nl) == /\ Len(lines) < MaxLines
                /\ k \in First => lines = <<>>
                /\ (lines # <<>> /\ Last.kind \in First) => k = "blank"
                /\ lines' = Append(lines, Empty(k, nl))
                /\ UNCHANGED enc
Put(l) == lines' = [lines EXCEPT ![Len(lines)] = l] /\ UNCHANGED enc
Space(g) == /\ lines # <<>> /\ g # ""
            /\ \/ Last.lead = "" /\ Put([Last EXCEPT !.lead = g])
               \/ Last.kind \in {"kv", "kvc", "big"} /\ Last.before = "" /\ Put([Last EXCEPT !.before = g])
               \/ Last.kind \in {"kv", "kvc", "big"} /\ Last.after = "" /\ Put([Last EXCEPT !.after = g])
               \/ Last.kind = "kvc" /\ Last.gap = "" /\ Put([Last EXCEPT !.gap = g])
Size(l) == Len(l.key) + Len(l.val) + Len(l.com)
Char(c) == /\ lines # <<>> /\ Size(Last) < MaxChars
           /\ \/ Last.kind \in {"kv", "kvc", "big", "table"} /\ Last.val = <<>> /\ Last.com = <<>> /\ Put([Last EXCEPT !.key = Append(Last.key, c)])
              \/ Last.kind \in {"kv", "kvc"} /\ Last.com = <<>> /\ Put([Last EXCEPT !.val = Append(Last.val, c)])
              \/ Last.kind \in {"kvc", "comment"} /\ Put([Last EXCEPT !.com = Append(Last.com, c)])

Init == enc \in Encodings /\ lines = <<>>
Next == \/ \E k \in Kinds : \E nl \in Newlines : Begin(k, nl)
        \/ \E g \in Gaps : Space(g)
        \/ \E c \in Chars : Char(c)
Spec == Init /\ [][Next]_vars

(* ---- where things are --------------------------------------------------- *)
W(s) == IF "clusters" \in Defects THEN Clusters(s, Len(s)) ELSE Width(enc, s, Len(s))
\* keys and values are quoted and begin with their number
Key(l) == W(l.key) + 3
\* the one of a big line is a number that is too large, which the server complains about
Val(l) == IF l.kind = "big" THEN 20 ELSE W(l.val) + 3
Com(l) == W(l.com) + 1
\* what a directive has before its own word, the word and what it has behind it besides the characters
Parts(k) == CASE k = "dir" -> <<2, 6, 1>> [] k = "link" -> <<1, 7, 4>> [] k = "doc" -> <<1, 6, 2>>
T(what, at, len) == [what |-> what, at |-> at, len |-> len]
Tokens(l) ==
  LET k == Len(l.lead)
      e == k + Key(l) + Len(l.before)
      v == e + 1 + Len(l.after)
      c == v + Val(l) + Len(l.gap)
  IN CASE l.kind = "big"     -> <<T("key", k, Key(l)), T("eq", e, 1), T("num", v, Val(l))>>
       [] l.kind = "kv"      -> <<T("key", k, Key(l)), T("eq", e, 1), T("val", v, Val(l))>>
       [] l.kind = "kvc"     -> <<T("key", k, Key(l)), T("eq", e, 1), T("val", v, Val(l)), T("com", c, Com(l))>>
       [] l.kind = "comment" -> <<T("com", k, Com(l))>>
       [] l.kind = "table"   -> <<T("open", k, 1), T("header", k + 1, Key(l)), T("close", k + 1 + Key(l), 1)>>
       [] l.kind \in {"dir"} \cup First ->
            LET p == Parts(l.kind) IN
            <<T("com", k, p[1]), T("word", k + p[1], p[2]), T("com", k + p[1] + p[2], p[3] + W(l.com))>>
       [] OTHER              -> <<>>

(* ---- properties --------------------------------------------------------- *)
TypeOK == Len(lines) <= MaxLines
InOrder == \A i \in DOMAIN lines : LET ts == Tokens(lines[i]) IN
  \A j \in 1..Len(ts) - 1 : ts[j].at + ts[j].len <= ts[j + 1].at
\* everything but white space is in a token, so the widths add up to the line
Covered == \A i \in DOMAIN lines : LET ts == Tokens(lines[i]) IN
  lines[i].kind \in {"kv", "kvc"} =>
    LET last == ts[Len(ts)] l == lines[i] IN
    last.at + last.len = Len(l.lead) + Width(enc, l.key, Len(l.key)) + 3 + Len(l.before) + 1 + Len(l.after)
       + Width(enc, l.val, Len(l.val)) + 3 + (IF l.kind = "kvc" THEN Len(l.gap) + Width(enc, l.com, Len(l.com)) + 1 ELSE 0)

\* the schema's path is a link
Link(l) == IF l.kind = "link" THEN <<Len(l.lead) + 9, 3 + W(l.com)>> ELSE <<>>

Emit == lines = <<>> \/ PrintT("@@" \o ToJson([
  enc |-> enc, lines |-> lines, tokens |-> [i \in DOMAIN lines |-> Tokens(lines[i])],
  link |-> IF lines = <<>> THEN <<>> ELSE Link(lines[1])]))
=============================================================================
