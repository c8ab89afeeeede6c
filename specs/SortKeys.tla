------------------------------ MODULE SortKeys ------------------------------
(***************************************************************************)
(* The order that the keys of one table come out in.                        *)
(*                                                                          *)
(* State                                                                    *)
(*   how    what asks for an order, fixed from the start:                   *)
(*          site    the key-values of the root, of a table, of an inline    *)
(*                  table, or the table headers of the document             *)
(*          dir     the comment directive of the table                      *)
(*          over    [[schemas.overrides]] for the table                     *)
(*          rules   [[schemas]] format.rules.table-keys-order.enabled       *)
(*          sch     x-tombi-table-keys-order of the table's schema          *)
(*          sub     the same of the schema of every key in it               *)
(*   items  the items so far: the path of the key, the group it is in, and   *)
(*          for a header its own directive                                  *)
(*                                                                          *)
(* Sorting happens in each group. It moves whole items with their comments,    *)
(* those with the same first key together (as TOML wants tables defined in  *)
(* one place), orders these by the first key, and each of them in turn by   *)
(* the second.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sites, Dirs, Overs, Rules, Schs, Subs, Firsts, Seconds, Owns, MaxItems, MaxGroups, Defects

VARIABLES how, items
vars == <<how, items>>

\* names, in lexicographic (byte) order and in version order
Lex == <<"B", "j10", "j9", "k10", "k9", "p10", "p2", "x-1", "x1", "z">>
Ver == <<"B", "j9", "j10", "k9", "k10", "p2", "p10", "x-1", "x1", "z">>
Props == <<"z", "k10", "B", "k9", "j10", "j9">>       \* as the schema lists them
Range(s) == {s[i] : i \in DOMAIN s}
Kind(k) == IF k \in Range(Props) THEN "properties"
           ELSE IF k \in {"p10", "p2"} THEN "patternProperties" ELSE "additionalProperties"
Pos(s, k) == IF k \in Range(s) THEN CHOOSE i \in DOMAIN s : s[i] = k ELSE 100
Rank(order, k) ==
  CASE order = "ascending"    -> Pos(Lex, k)
    [] order = "descending"   -> 0 - Pos(Lex, k)
    [] order = "version-sort" -> Pos(Ver, k)
    [] order = "schema"       -> Pos(Props, k)
    [] OTHER                  -> 0

\* a stable sort
RECURSIVE Insert(_, _, _)
Insert(order, k, s) ==
  IF s = <<>> THEN <<k>>
  ELSE IF Rank(order, k) < Rank(order, Head(s)) THEN <<k>> \o s
  ELSE <<Head(s)>> \o Insert(order, k, Tail(s))
RECURSIVE Sort(_, _)
Sort(order, s) == IF s = <<>> THEN <<>>
                  ELSE Insert(order, s[Len(s)], Sort(order, SubSeq(s, 1, Len(s) - 1)))
OfKind(kind, s) == SelectSeq(s, LAMBDA k : Kind(k) = kind)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* an order: one for all keys, or for one kind of keys after the other
All(o) == <<<<"all", o>>>>
Arrange(order, s) ==
  IF order = <<>> THEN s
  ELSE IF order[1][1] = "all" THEN Sort(order[1][2], s)
  ELSE Concat([i \in DOMAIN order |-> Sort(order[i][2], OfKind(order[i][1], s))])

\* comment directives come before the configuration, that before the schema
BySchema(order) == IF how.rules = "false" THEN <<>> ELSE order
Effective(inherited) ==
  CASE inherited = "disabled" -> <<>>
    [] inherited # "-" /\ ~("override_first" \in Defects /\ how.over # "-") -> All(inherited)
    [] how.over = "disabled" -> <<>>
    [] how.over = "enabled" -> how.sch
    [] how.over # "-" -> All(how.over)
    [] OTHER -> BySchema(how.sch)
\* below the table: its directive goes on, the override does not
Below(inherited) == IF inherited = "disabled" THEN <<>>
                    ELSE IF inherited # "-" THEN All(inherited) ELSE BySchema(how.sub)

Own(s, k) == LET of == {i \in DOMAIN s : s[i].path = <<k>> /\ s[i].own # "-"}
             IN IF of = {} THEN "-" ELSE s[CHOOSE i \in of : TRUE].own
RECURSIVE Firstly(_)
Firstly(s) == IF s = <<>> THEN <<>>
              ELSE <<s[1].path[1]>> \o Firstly(SelectSeq(s, LAMBDA i : i.path[1] # s[1].path[1]))
RECURSIVE Secondly(_)
Secondly(s) == IF s = <<>> THEN <<>>
               ELSE <<s[1].path[2]>> \o Secondly(SelectSeq(s, LAMBDA i : i.path[2] # s[1].path[2]))
\* what has the first key k: itself, then what lies in it
Block(s, k) ==
  LET of == SelectSeq(s, LAMBDA i : i.path[1] = k)
      self == SelectSeq(of, LAMBDA i : Len(i.path) = 1)
      deep == SelectSeq(of, LAMBDA i : Len(i.path) = 2)
      inherited == IF Own(s, k) # "-" THEN Own(s, k) ELSE how.dir
      names == Arrange(Below(inherited), Secondly(deep))
  IN self \o Concat([i \in DOMAIN names |-> SelectSeq(deep, LAMBDA d : d.path[2] = names[i])])
SortGroup(s) ==
  LET names == Arrange(Effective(how.dir), Firstly(s))
  IN Concat([i \in DOMAIN names |-> Block(s, names[i])])
Groups(s) == IF s = <<>> THEN 0 ELSE s[Len(s)].group
Group(s, g) == SelectSeq(s, LAMBDA i : i.group = g)
Sorted(s) ==
  IF how.dir = "disabled" THEN s
  ELSE IF "across" \in Defects THEN SortGroup(s)
  ELSE Concat([g \in 1..Groups(s) |-> SortGroup(Group(s, g))])

(* ------------------------------ transitions ------------------------------ *)
Paths == {<<k>> : k \in Firsts} \cup {<<k, j>> : k \in Firsts, j \in Seconds}
Clash(p, q) == p = q \/ (how.site # "headers" /\ (Len(p) = 1 \/ Len(q) = 1) /\ p[1] = q[1])
Init == /\ items = <<>>
        /\ \E site \in Sites, d \in Dirs, o \in Overs, r \in Rules, s \in Schs, b \in Subs :
             /\ how = [site |-> site, dir |-> d, over |-> o, rules |-> r, sch |-> s, sub |-> b]
             \* where the configuration says "no order" it is open whether a directive is heard,
             \* and whether the schema below is
             /\ o = "disabled" => d = "-" /\ b = <<>>
Add == /\ Len(items) < MaxItems
       /\ \E p \in Paths, own \in Owns, new \in {0, 1} :
            /\ \A i \in DOMAIN items : ~Clash(items[i].path, p)
            /\ own # "-" => how.site = "headers" /\ Len(p) = 1
            /\ new = 1 => items # <<>> /\ Groups(items) < MaxGroups /\ how.site # "headers"
            \* the dotted keys of one table stay in one group
            /\ new = 1 => \A i \in DOMAIN items : items[i].path[1] # p[1]
            /\ \A i \in DOMAIN items : items[i].path[1] = p[1] => items[i].group = Groups(items)
            /\ items' = Append(items, [path |-> p, own |-> own,
                                       group |-> IF items = <<>> THEN 1 ELSE Groups(items) + new])
       /\ UNCHANGED how
Next == Add
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* every kind of key there is has its place in the order
Told == \A order \in {how.sch, how.sub} :
  order = <<>> \/ order[1][1] = "all"
  \/ \A i \in DOMAIN items : \A k \in Range(items[i].path) : \E g \in DOMAIN order : order[g][1] = Kind(k)
Permutation == Told => Len(Sorted(items)) = Len(items) /\ Range(Sorted(items)) = Range(items)
Idempotent == Told => Sorted(Sorted(items)) = Sorted(items)
GroupsStay == Told => \A i \in DOMAIN items : Sorted(items)[i].group = items[i].group
\* where nobody asks, only what belongs together comes together
NoOrder == (how.dir = "-" /\ how.over = "-" /\ how.sch = <<>> /\ how.sub = <<>> /\ (\A n \in DOMAIN items : items[n].own = "-")
            /\ \A i, j \in DOMAIN items : i # j => items[i].path[1] # items[j].path[1]) => Sorted(items) = items
DirectiveWins == (how.dir = "ascending" /\ Told) =>
  \A i \in 1..Len(items) - 1 : LET a == Sorted(items)[i] b == Sorted(items)[i + 1]
                               IN a.group = b.group => Pos(Lex, a.path[1]) <= Pos(Lex, b.path[1])

Emit == (items # <<>> /\ Told) => PrintT("@@" \o ToJson([how |-> how, items |-> items,
           right |-> [i \in DOMAIN items |-> CHOOSE j \in DOMAIN items : items[j] = Sorted(items)[i]]]))
=============================================================================
