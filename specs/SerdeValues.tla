----------------------------- MODULE SerdeValues -----------------------------
(***************************************************************************)
(* Values of serde's data model, written as TOML and read back.             *)
(*                                                                          *)
(* State                                                                    *)
(*   stack  the containers that are open, the root first, each with what    *)
(*          it has so far                                                   *)
(*   done   the value when the root is closed                               *)
(*                                                                          *)
(* A value is [k, v, items]: a leaf (k = "leaf", v names it) or a container *)
(*   map struct          keys and values                                    *)
(*   seq tuple tstruct   values                                             *)
(*   some newtype        one value                                          *)
(*   nv tv sv            a variant (v names it) of one value, of values, or *)
(*                       of keys and values                                 *)
(* An item is [key, val].                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Leaves, Keys, Kinds, Roots, Variants, MaxDepth, MaxSize, MaxItems, Defects

VARIABLES stack, done, size
vars == <<stack, done, size>>

Nothing == [k |-> "nothing", v |-> "", items |-> <<>>]
Leaf(l) == [k |-> "leaf", v |-> l, items |-> <<>>]
Tables == {"map", "struct", "sv"}
Lists == {"seq", "tuple", "tstruct", "tv"}
Ones == {"some", "newtype", "nv"}
Tagged == {"nv", "tv", "sv"}
Top == stack[Len(stack)]
\* whether one more item has a place
Room(f, val, key) ==
  /\ Len(f.items) < MaxItems
  /\ IF f.k \in Tables THEN key \in Keys /\ \A i \in DOMAIN f.items : f.items[i].key # key ELSE key = ""
  /\ f.k \in Ones => f.items = <<>>
  \* what is absent can only be absent from a table or (wrongly) from a list
  /\ (val.k = "leaf" /\ val.v = "none") => f.k \notin Ones
  \* the keys of a struct are names
  /\ key = "int" => f.k = "map"
Give(f, val, key) == [f EXCEPT !.items = Append(f.items, [key |-> key, val |-> val])]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]

Init == /\ done = Nothing /\ size = 0
        /\ \E r \in Roots : \E v \in Variants :
             /\ r \notin Tagged => v = CHOOSE w \in Variants : TRUE
             /\ stack = <<[k |-> r, v |-> IF r \in Tagged THEN v ELSE "", items |-> <<>>, at |-> ""]>>
AddLeaf(l, key) == /\ stack # <<>> /\ size < MaxSize /\ Room(Top, Leaf(l), key)
                   /\ stack' = SetTop(Give(Top, Leaf(l), key))
                   /\ size' = size + 1 /\ UNCHANGED done
Open(kind, v, key) == /\ stack # <<>> /\ size < MaxSize /\ Len(stack) < MaxDepth
                      /\ kind \notin Tagged => v = CHOOSE w \in Variants : TRUE
                      /\ Room(Top, Nothing, key)
                      /\ stack' = Append(stack, [k |-> kind, v |-> IF kind \in Tagged THEN v ELSE "", items |-> <<>>, at |-> key])
                      /\ size' = size + 1 /\ UNCHANGED done
Closed(f) == [k |-> f.k, v |-> f.v, items |-> f.items]
Close == /\ stack # <<>> /\ (Top.k \in Ones => Len(Top.items) = 1)
         /\ IF Len(stack) = 1 THEN stack' = <<>> /\ done' = Closed(Top)
            ELSE LET below == SubSeq(stack, 1, Len(stack) - 1) IN
                 /\ stack' = [below EXCEPT ![Len(below)] = Give(below[Len(below)], Closed(Top), Top.at)]
                 /\ UNCHANGED done
         /\ UNCHANGED size
Next == \/ \E l \in Leaves : \E key \in Keys \cup {""} : AddLeaf(l, key)
        \/ \E kind \in Kinds : \E v \in Variants : \E key \in Keys \cup {""} : Open(kind, v, key)
        \/ Close
Spec == Init /\ [][Next]_vars

(* ---- what TOML can say -------------------------------------------------- *)
\* leaves that TOML has nothing for
Never == {"unit", "ustruct", "bytes", "u64:big"}
RECURSIVE Expressible(_)
Expressible(x) ==
  IF x.k = "leaf" THEN x.v \notin Never
  ELSE /\ \A i \in DOMAIN x.items : Expressible(x.items[i].val) /\ x.items[i].key # "int"
       /\ x.k \in Lists => \A i \in DOMAIN x.items : x.items[i].val.v # "none" \/ "drops" \in Defects
RECURSIVE Table(_)
\* whether it is written as a table
Table(x) == \/ x.k \in Tables \cup Tagged
            \/ x.k \in {"some", "newtype"} /\ Table(x.items[1].val)
Accepted(x) == Expressible(x) /\ Table(x)

(* ---- the data ----------------------------------------------------------- *)
T(items) == [t |-> "tab", v |-> "", items |-> items]
RECURSIVE Data(_)
Present(items) == SelectSeq(items, LAMBDA e : ~(e.val.k = "leaf" /\ e.val.v = "none"))
All(items) == LET p == Present(items) IN [i \in DOMAIN p |-> [key |-> p[i].key, val |-> Data(p[i].val)]]
Tag(v, d) == IF "untagged" \in Defects THEN d ELSE T(<<[key |-> v, val |-> d]>>)
Data(x) ==
  CASE x.k = "leaf" -> [t |-> "leaf", v |-> x.v, items |-> <<>>]
    [] x.k \in {"map", "struct"} -> T(All(x.items))
    [] x.k \in {"seq", "tuple", "tstruct"} -> [t |-> "arr", v |-> "", items |-> All(x.items)]
    [] x.k \in {"some", "newtype"} -> Data(x.items[1].val)
    [] x.k = "nv" -> Tag(x.v, Data(x.items[1].val))
    [] x.k = "tv" -> Tag(x.v, [t |-> "arr", v |-> "", items |-> All(x.items)])
    [] x.k = "sv" -> Tag(x.v, T(All(x.items)))

(* ---- and back: x says only which types are expected ---------------------- *)
Unreadable == [k |-> "unreadable", v |-> "", items |-> <<>>]
At(d, key) == LET hit == {i \in DOMAIN d.items : d.items[i].key = key} IN
              IF hit = {} THEN Nothing ELSE d.items[CHOOSE i \in hit : TRUE].val
RECURSIVE Read(_, _)
Fields(x, d) == [i \in DOMAIN x.items |->
  [key |-> x.items[i].key, val |-> LET e == At(d, x.items[i].key) IN
     IF e = Nothing THEN Leaf("none") ELSE Read(x.items[i].val, e)]]
Read(x, d) ==
  CASE x.k = "leaf" -> IF d.t = "leaf" THEN Leaf(d.v) ELSE Unreadable
    [] x.k \in {"map", "struct"} -> IF d.t = "tab" THEN [k |-> x.k, v |-> "", items |-> Fields(x, d)] ELSE Unreadable
    [] x.k \in {"seq", "tuple", "tstruct"} ->
         IF d.t = "arr" /\ Len(d.items) = Len(x.items)
         THEN [k |-> x.k, v |-> "", items |-> [i \in DOMAIN x.items |-> [key |-> "", val |-> Read(x.items[i].val, d.items[i].val)]]]
         ELSE Unreadable
    [] x.k \in {"some", "newtype"} -> [k |-> x.k, v |-> "", items |-> <<[key |-> "", val |-> Read(x.items[1].val, d)]>>]
    [] OTHER ->
         IF d.t # "tab" \/ Len(d.items) # 1 THEN Unreadable
         ELSE LET v == d.items[1].key e == d.items[1].val IN
              IF v \notin Variants THEN Unreadable
              ELSE CASE x.k = "nv" -> [k |-> "nv", v |-> v, items |-> <<[key |-> "", val |-> Read(x.items[1].val, e)]>>]
                     [] x.k = "tv" -> LET l == Read([x EXCEPT !.k = "seq"], e) IN IF l = Unreadable THEN l ELSE [l EXCEPT !.k = "tv", !.v = v]
                     [] OTHER -> LET l == Read([x EXCEPT !.k = "map"], e) IN IF l = Unreadable THEN l ELSE [l EXCEPT !.k = "sv", !.v = v]

(* ---- properties --------------------------------------------------------- *)
TypeOK == size <= MaxSize /\ Len(stack) <= MaxDepth
Identity == (done # Nothing /\ Accepted(done)) => Read(done, Data(done)) = done
RootIsTable == (done # Nothing /\ Accepted(done)) => Data(done).t = "tab"

Emit == done = Nothing \/ PrintT("@@" \o ToJson([value |-> done, accepted |-> Accepted(done),
          data |-> IF Accepted(done) THEN Data(done) ELSE Nothing]))
=============================================================================
