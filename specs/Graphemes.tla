------------------------------ MODULE Graphemes ------------------------------
(***************************************************************************)
(* Characters, what they are counted as, and which of them belong together. *)
(* A character is named for its kind; the harness has one of each:          *)
(*   a   ASCII letter          2   two bytes          3   three bytes       *)
(*   em  emoji                 cm  combining mark     vs  variation selector*)
(*   sk  skin tone             zj  zero width joiner  ri  flag letter       *)
(*   hl  Hangul initial        hv  Hangul vowel       tab                   *)
(* tombi counts columns in grapheme clusters, an editor in units of the     *)
(* encoding that was agreed on.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Bytes(c) == CASE c \in {"a", "tab"} -> 1
              [] c \in {"2", "cm"} -> 2
              [] c \in {"3", "vs", "zj", "hl", "hv"} -> 3
              [] OTHER -> 4          \* em, sk, ri
Units(enc, c) == CASE enc = "utf-8"  -> Bytes(c)
                   [] enc = "utf-16" -> IF Bytes(c) = 4 THEN 2 ELSE 1
                   [] OTHER          -> 1

Extends(c) == c \in {"cm", "vs", "sk", "zj"}
\* the flag letters directly before place i
RECURSIVE Flags(_, _)
Flags(s, i) == IF i = 0 \/ s[i] # "ri" THEN 0 ELSE 1 + Flags(s, i - 1)
\* an emoji, what extends it, and a joiner end before place i
RECURSIVE AfterEmoji(_, _)
AfterEmoji(s, i) == i > 0 /\ (s[i] = "em" \/ (s[i] \in {"cm", "vs", "sk"} /\ AfterEmoji(s, i - 1)))
\* whether the character at i belongs to the one before it
Joined(s, i) ==
  /\ i > 1 /\ s[i - 1] # "tab" /\ s[i] # "tab"
  /\ \/ Extends(s[i])
     \/ s[i] = "em" /\ s[i - 1] = "zj" /\ AfterEmoji(s, i - 2)
     \/ s[i] = "ri" /\ Flags(s, i - 1) % 2 = 1
     \/ s[i] = "hl" /\ s[i - 1] = "hl"
     \/ s[i] = "hv" /\ s[i - 1] \in {"hl", "hv"}
\* how many clusters begin among the first n characters
RECURSIVE Clusters(_, _)
Clusters(s, n) == IF n = 0 THEN 0 ELSE Clusters(s, n - 1) + (IF Joined(s, n) THEN 0 ELSE 1)
\* the places where a cluster can end: so many characters are before
Ends(s) == {n \in 0..Len(s) : n = Len(s) \/ n = 0 \/ ~Joined(s, n + 1)}
RECURSIVE Width(_, _, _)
Width(enc, s, n) == IF n = 0 THEN 0 ELSE Width(enc, s, n - 1) + Units(enc, s[n])
=============================================================================
