----------------------------- MODULE SortValues -----------------------------
(***************************************************************************)
(* The order that the values of an array come out in.                       *)
(*                                                                          *)
(* State                                                                    *)
(*   how    what asks for an order, fixed from the start:                   *)
(*          dir    the comment directive of the array                       *)
(*          over   [[schemas.overrides]] for the array                      *)
(*          rules  [[schemas]] format.rules.array-values-order.enabled      *)
(*          sch    x-tombi-array-values-order of its schema: of all values, *)
(*                 or one after the other of those of each type             *)
(*          by     whether its items name what tables are ordered by        *)
(*   items  the values so far and the group each is in                      *)
(*                                                                          *)
(* The values of a group are sorted when all are of one type, tables being  *)
(* of the type of the key they are ordered by. Floats, arrays, and tables   *)
(* without that key have no order and leave the group as it is. Values that *)
(* are alike keep their order.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dirs, Overs, Rules, Schs, Bys, Values, MaxItems, MaxGroups, Defects

VARIABLES how, items
vars == <<how, items>>

Lex == <<"b:false", "b:true", "i:-5", "i:2", "i:10", "s:B", "s:k10", "s:k9", "d:2019-12-31", "d:2020-01-01",
         "l:07:30:00", "l:16:00:00">>
Ver == <<"b:false", "b:true", "i:-5", "i:2", "i:10", "s:B", "s:k9", "s:k10", "d:2019-12-31", "d:2020-01-01",
         "l:07:30:00", "l:16:00:00">>
Type(v) == IF v \in {"b:false", "b:true"} THEN "boolean"
           ELSE IF v \in {"i:-5", "i:2", "i:10"} THEN "integer"
           ELSE IF v \in {"s:B", "s:k10", "s:k9"} THEN "string"
           ELSE IF v \in {"d:2019-12-31", "d:2020-01-01"} THEN "date"
           ELSE IF v \in {"l:07:30:00", "l:16:00:00"} THEN "time"
           ELSE IF v \in {"t:B", "t:k10", "t:k9"} THEN "table"
           ELSE "none"          \* f: floats, a: arrays, x: tables without the key
\* what a value is ordered by: a table by the string at its key
Key(v) == CASE v = "t:B" -> "s:B" [] v = "t:k10" -> "s:k10" [] v = "t:k9" -> "s:k9" [] OTHER -> v
Range(s) == {s[i] : i \in DOMAIN s}
Pos(s, k) == IF k \in Range(s) THEN CHOOSE i \in DOMAIN s : s[i] = k ELSE 100
Rank(order, v) ==
  CASE order = "ascending"    -> Pos(Lex, Key(v))
    [] order = "descending"   -> 0 - Pos(Lex, Key(v))
    [] order = "version-sort" -> Pos(Ver, Key(v))
    [] OTHER                  -> 0

RECURSIVE Insert(_, _, _)
Insert(order, i, s) ==
  IF s = <<>> THEN <<i>>
  ELSE IF Rank(order, i.val) < Rank(order, Head(s).val)
          \/ ("unstable" \in Defects /\ order = "descending" /\ Rank(order, i.val) = Rank(order, Head(s).val))
       THEN <<i>> \o s
  ELSE <<Head(s)>> \o Insert(order, i, Tail(s))
RECURSIVE Sort(_, _)
Sort(order, s) == IF s = <<>> THEN <<>>
                  ELSE Insert(order, s[Len(s)], Sort(order, SubSeq(s, 1, Len(s) - 1)))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* the schema of the items says what tables are ordered by
By == how.by /\ (how.sch = <<>> \/ how.sch[1][1] = "all" \/ \E i \in DOMAIN how.sch : how.sch[i][1] = "table")
Sortable(s) == /\ \A i, j \in DOMAIN s : Type(Key(s[i].val)) = Type(Key(s[j].val))
               /\ \A i \in DOMAIN s : Type(s[i].val) # "none" /\ (Type(s[i].val) = "table" => By)
OneOrder(order, s) == IF Sortable(s) THEN Sort(order, s) ELSE s

\* <<>> none, <<<<"all", order>>>> or <<<<type, order>>, ...>>
Listed(order) == {order[i][1] : i \in DOMAIN order}
Member(v, type) == Type(v) = type \/ (type = "table" /\ v = "x:1")
ByType(order, s) ==
  Concat([i \in DOMAIN order |-> OneOrder(order[i][2], SelectSeq(s, LAMBDA v : Member(v.val, order[i][1])))])
  \o SelectSeq(s, LAMBDA v : \A t \in Listed(order) : ~Member(v.val, t))
Arrange(order, s) == IF order = <<>> THEN s
                     ELSE IF order[1][1] = "all" THEN OneOrder(order[1][2], s)
                     ELSE ByType(order, s)

All(o) == <<<<"all", o>>>>
Effective == CASE how.dir = "disabled" -> <<>>
               [] how.dir # "-" -> All(how.dir)
               [] how.over = "disabled" -> <<>>
               [] how.over = "enabled" -> how.sch
               [] how.over # "-" -> All(how.over)
               [] how.rules = "false" -> <<>>
               [] OTHER -> how.sch
NGroups(s) == IF s = <<>> THEN 0 ELSE s[Len(s)].group
Sorted(s) == Concat([g \in 1..NGroups(s) |-> Arrange(Effective, SelectSeq(s, LAMBDA i : i.group = g))])

(* ------------------------------ transitions ------------------------------ *)
Init == /\ items = <<>>
        /\ \E d \in Dirs, o \in Overs, r \in Rules, s \in Schs, b \in Bys :
             /\ how = [dir |-> d, over |-> o, rules |-> r, sch |-> s, by |-> b]
             /\ o = "disabled" => d = "-"
Add == /\ Len(items) < MaxItems
       /\ \E v \in Values, new \in {0, 1} :
            /\ new = 1 => items # <<>> /\ NGroups(items) < MaxGroups
            /\ items' = Append(items, [val |-> v, n |-> Len(items) + 1,
                                       group |-> IF items = <<>> THEN 1 ELSE NGroups(items) + new])
       /\ UNCHANGED how
Next == Add
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Permutation == Len(Sorted(items)) = Len(items) /\ Range(Sorted(items)) = Range(items)
Idempotent == Sorted(Sorted(items)) = Sorted(items)
GroupsStay == \A i \in DOMAIN items : Sorted(items)[i].group = items[i].group
NoOrder == Effective = <<>> => Sorted(items) = items
Alike == \A i, j \in DOMAIN items :
  LET s == Sorted(items) IN (i < j /\ s[i].group = s[j].group /\ s[i].val = s[j].val) => s[i].n < s[j].n

Emit == items # <<>> => PrintT("@@" \o ToJson([how |-> how, items |-> items,
                                               right |-> [i \in DOMAIN items |-> Sorted(items)[i].n]]))
=============================================================================
