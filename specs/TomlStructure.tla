---------------------------- MODULE TomlStructure ----------------------------
(***************************************************************************)
(* The table-definition state machine of TOML (v1.0.0 and v1.1.0 agree on   *)
(* it): a document is a sequence of lines, each a [header], an              *)
(* [[array-of-tables header]] or a (dotted) key/value, and every line       *)
(* either extends the tree of tables or is an error.                        *)
(*                                                                          *)
(* State                                                                    *)
(*   ops   the lines so far (history, printed with the verdict)             *)
(*   tree  function from paths to how that node was defined                 *)
(*   cur   path of the table the next key/value goes into                   *)
(*   st    "ok" | "dup" (some line violates the specification)              *)
(*         | "amb" (the specification text does not settle the line)        *)
(*                                                                          *)
(* One action per kind of line, applied in document order.  Every reachable *)
(* state is one document together with the verdict and the tree that the    *)
(* specification prescribes; the harness writes it out in several spellings *)
(* and compares tombi's verdict and tree.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,        \* bare key names, e.g. <<"a","b">> (canonical order)
          MaxOps,       \* longest document
          MaxHeader,    \* longest header path
          MaxDotted,    \* longest dotted key
          ValueSet,     \* names of the value shapes used by key/values
          Prefix        \* "none" or the name of a fixed document prefix

VARIABLES ops, tree, cur, st
vars == <<ops, tree, cur, st>>

NameSet == {Names[i] : i \in 1..Len(Names)}

(* ---------------------------- value shapes ----------------------------- *)
S == [t |-> "s"]
I(es) == [t |-> "i", es |-> es]
L(vs) == [t |-> "l", vs |-> vs]
E(k, v) == [k |-> k, v |-> v]

Values ==
  [ scalar    |-> S,
    inl_empty |-> I(<<>>),
    inl_a     |-> I(<<E(<<"a">>, S)>>),
    inl_c     |-> I(<<E(<<"c">>, S)>>),
    inl_ab    |-> I(<<E(<<"a">>, S), E(<<"b">>, S)>>),
    inl_dot   |-> I(<<E(<<"a","b">>, S), E(<<"a","a">>, S)>>),
    inl_dup   |-> I(<<E(<<"a">>, S), E(<<"b">>, S), E(<<"a">>, S)>>),
    inl_dot1  |-> I(<<E(<<"a">>, S), E(<<"a","b">>, S)>>),
    inl_dot2  |-> I(<<E(<<"a","b">>, S), E(<<"a">>, S)>>),
    inl_froz  |-> I(<<E(<<"a">>, I(<<>>)), E(<<"a","b">>, S)>>),
    inl_froz2 |-> I(<<E(<<"a","b">>, I(<<>>)), E(<<"a","b","a">>, S)>>),
    inl_arr   |-> I(<<E(<<"a">>, L(<<>>)), E(<<"a">>, L(<<>>))>>),
    inl_arr2  |-> I(<<E(<<"a">>, L(<<I(<<>>)>>)), E(<<"a">>, L(<<I(<<>>)>>))>>),
    inl_arr3  |-> I(<<E(<<"a">>, L(<<I(<<>>)>>)), E(<<"a","b">>, S)>>),
    arr_empty |-> L(<<>>),
    arr_s     |-> L(<<S, S>>),
    arr_i     |-> L(<<I(<<E(<<"a">>, S)>>)>>),
    arr_ii    |-> L(<<I(<<E(<<"a">>, S)>>), I(<<E(<<"a">>, S)>>)>>),
    arr_mix   |-> L(<<S, I(<<E(<<"a","b">>, S)>>), L(<<S>>)>>),
    arr_dup   |-> L(<<I(<<E(<<"a">>, S), E(<<"a">>, S)>>)>>),
    arr_deep  |-> L(<<L(<<I(<<E(<<"b","a">>, S), E(<<"b">>, S)>>)>>)>>) ]

(* ------------------------------ the tree ------------------------------- *)
(* node kinds: "exp" table opened by a header (or the root, or an element   *)
(* of an array of tables); "imp" table that exists because a header passed  *)
(* through it; "dot" table created by a dotted key; "aot" array of tables;  *)
(* "inl" inline table; "arr" array; "v<n>" a scalar written by line n.                    *)
Has(tr, p) == p \in DOMAIN tr
Put(tr, p, k) == (p :> k) @@ tr
\* elements of the array node p
Count(tr, p) == Cardinality({q \in DOMAIN tr : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p})
Ix(n) == "#" \o ToString(n)
LastEl(tr, p) == Append(p, Ix(Count(tr, p) - 1))

Ok(tr) == [st |-> "ok", tree |-> tr]
Bad == [st |-> "dup", tree |-> <<>>]
Amb == [st |-> "amb", tree |-> <<>>]

RECURSIVE PutValue(_, _, _, _), PutKV(_, _, _, _, _), PutEntries(_, _, _, _), PutItems(_, _, _, _, _)

\* store value v at the fresh path p
PutValue(tr, p, v, n) ==
  CASE v.t = "s" -> Ok(Put(tr, p, "v" \o ToString(n)))
    [] v.t = "i" -> PutEntries(Put(tr, p, "inl"), p, v.es, n)
    [] v.t = "l" -> PutItems(Put(tr, p, "arr"), p, v.vs, 0, n)

PutEntries(tr, p, es, n) ==
  IF es = <<>> THEN Ok(tr)
  ELSE LET r == PutKV(tr, p, es[1].k, es[1].v, n)
       IN  IF r.st # "ok" THEN r ELSE PutEntries(r.tree, p, Tail(es), n)

PutItems(tr, p, vs, i, n) ==
  IF vs = <<>> THEN Ok(tr)
  ELSE LET r == PutValue(tr, Append(p, Ix(i)), vs[1], n)
       IN  IF r.st # "ok" THEN r ELSE PutItems(r.tree, p, Tail(vs), i + 1, n)

\* k = v inside the table at p (p itself is being written, so it accepts keys)
PutKV(tr, p, k, v, n) ==
  LET q == Append(p, k[1]) IN
  IF Len(k) = 1
  THEN IF Has(tr, q) THEN Bad ELSE PutValue(tr, q, v, n)
  ELSE IF ~Has(tr, q) THEN PutKV(Put(tr, q, "dot"), q, Tail(k), v, n)
  ELSE CASE tr[q] = "dot" -> PutKV(tr, q, Tail(k), v, n)
         \* Created, but not defined, by a header further down: whether a
         \* dotted key may still fill it is read differently by different
         \* implementations.
         [] tr[q] = "imp" -> Amb
         [] OTHER -> Bad

\* walk a header's prefix; result is the path of the table reached
RECURSIVE Walk(_, _, _)
Walk(tr, p, ks) ==
  IF ks = <<>> THEN [st |-> "ok", tree |-> tr, at |-> p]
  ELSE LET q == Append(p, ks[1]) IN
       IF ~Has(tr, q) THEN Walk(Put(tr, q, "imp"), q, Tail(ks))
       ELSE CASE tr[q] \in {"imp", "exp", "dot"} -> Walk(tr, q, Tail(ks))
              [] tr[q] = "aot" -> Walk(tr, LastEl(tr, q), Tail(ks))
              [] OTHER -> [st |-> "dup", tree |-> <<>>, at |-> <<>>]

OpenTable(tr, ks) ==
  LET w == Walk(tr, <<>>, SubSeq(ks, 1, Len(ks) - 1))
      q == Append(w.at, ks[Len(ks)])
  IN IF w.st # "ok" THEN w
     ELSE IF ~Has(w.tree, q) THEN [st |-> "ok", tree |-> Put(w.tree, q, "exp"), at |-> q]
     ELSE IF w.tree[q] = "imp" THEN [st |-> "ok", tree |-> Put(w.tree, q, "exp"), at |-> q]
     ELSE [st |-> "dup", tree |-> <<>>, at |-> <<>>]

OpenElement(tr, ks) ==
  LET w == Walk(tr, <<>>, SubSeq(ks, 1, Len(ks) - 1))
      q == Append(w.at, ks[Len(ks)])
  IN IF w.st # "ok" THEN w
     ELSE IF ~Has(w.tree, q)
          THEN LET e == Append(q, Ix(0))
               IN [st |-> "ok", tree |-> Put(Put(w.tree, q, "aot"), e, "exp"), at |-> e]
     ELSE IF w.tree[q] = "aot"
          THEN LET e == Append(q, Ix(Count(w.tree, q)))
               IN [st |-> "ok", tree |-> Put(w.tree, e, "exp"), at |-> e]
     ELSE [st |-> "dup", tree |-> <<>>, at |-> <<>>]

(* ------------------------------- actions ------------------------------- *)
Paths(n) == UNION {[1..m -> NameSet] : m \in 1..n}

\* Names are interchangeable: only documents whose names first appear in the
\* order of Names are explored (a symmetry reduction written by hand, because
\* paths are functions of names).
Flat(os) == LET F[i \in 0..Len(os)] == IF i = 0 THEN <<>> ELSE F[i-1] \o os[i].k IN F[Len(os)]
IndexOf(x) == CHOOSE i \in 1..Len(Names) : Names[i] = x
Canonical(os) ==
  LET f == Flat(os) IN
  \A i \in 1..Len(f) :
     LET seen == {IndexOf(f[j]) : j \in 1..(i-1)} IN
     IndexOf(f[i]) \in seen \/ IndexOf(f[i]) = Cardinality(seen) + 1

UseOps(o) == ops' = Append(ops, o) /\ Canonical(ops')

Header(ks) ==
  /\ st = "ok" /\ Len(ops) < MaxOps
  /\ UseOps([op |-> "h", k |-> ks])
  /\ LET r == OpenTable(tree, ks) IN
     /\ st' = r.st /\ tree' = r.tree
     /\ cur' = IF r.st = "ok" THEN r.at ELSE cur

AotHeader(ks) ==
  /\ st = "ok" /\ Len(ops) < MaxOps
  /\ UseOps([op |-> "a", k |-> ks])
  /\ LET r == OpenElement(tree, ks) IN
     /\ st' = r.st /\ tree' = r.tree
     /\ cur' = IF r.st = "ok" THEN r.at ELSE cur

KeyValue(ks, vn) ==
  /\ st = "ok" /\ Len(ops) < MaxOps
  /\ UseOps([op |-> "k", k |-> ks, v |-> Values[vn]])
  /\ LET r == PutKV(tree, cur, ks, Values[vn], Len(ops) + 1) IN
     /\ st' = r.st /\ tree' = r.tree /\ cur' = cur

(* Long prefixes put the interesting choices deeper in the document.        *)
PrefixOps ==
  CASE Prefix = "none" -> <<>>
    [] Prefix = "aot_sub" -> << [op |-> "a", k |-> <<"a">>], [op |-> "h", k |-> <<"a","b">>] >>
    [] Prefix = "aot_nest" -> << [op |-> "a", k |-> <<"a">>], [op |-> "a", k |-> <<"a","b">>],
                                 [op |-> "a", k |-> <<"a">>] >>
    [] Prefix = "super" -> << [op |-> "h", k |-> <<"a","b","a">>], [op |-> "h", k |-> <<"a">>] >>
    [] Prefix = "dotted" -> << [op |-> "h", k |-> <<"a">>], [op |-> "k", k |-> <<"b","a">>, v |-> S] >>
    [] Prefix = "aot_dotted" -> << [op |-> "a", k |-> <<"a">>], [op |-> "k", k |-> <<"b","a">>, v |-> S],
                                   [op |-> "a", k |-> <<"a">>] >>

RECURSIVE Run(_, _, _, _)
Run(os, tr, n, c) ==
  IF os = <<>> THEN [tree |-> tr, cur |-> c]
  ELSE LET o == os[1]
           r == CASE o.op = "h" -> OpenTable(tr, o.k)
                  [] o.op = "a" -> OpenElement(tr, o.k)
                  [] o.op = "k" -> PutKV(tr, c, o.k, o.v, n)
       IN Run(Tail(os), r.tree, n + 1, IF o.op = "k" THEN c ELSE r.at)

Init ==
  LET r == Run(PrefixOps, (<<>> :> "exp"), 1, <<>>) IN
  ops = PrefixOps /\ tree = r.tree /\ cur = r.cur /\ st = "ok"

Next ==
  \/ \E ks \in Paths(MaxHeader) : Header(ks) \/ AotHeader(ks)
  \/ \E ks \in Paths(MaxDotted), vn \in ValueSet : KeyValue(ks, vn)

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
IsScalar(k) == k \in {"v" \o ToString(i) : i \in 1..MaxOps}
TypeOK == /\ st \in {"ok", "dup", "amb"}
          /\ \A p \in DOMAIN tree : tree[p] \in {"exp","imp","dot","aot","inl","arr"} \/ IsScalar(tree[p])

\* the tree is prefix closed, leaves carry no children, and an array's
\* elements are numbered consecutively from 0
WellFormed ==
  st = "ok" =>
    \A p \in DOMAIN tree :
      /\ Len(p) > 0 => SubSeq(p, 1, Len(p) - 1) \in DOMAIN tree
      /\ IsScalar(tree[p]) => Count(tree, p) = 0
      /\ tree[p] \in {"aot", "arr"} =>
           \A n \in 0..(Count(tree, p) - 1) : Append(p, Ix(n)) \in DOMAIN tree
      /\ tree[p] = "aot" => Count(tree, p) > 0

\* a line never removes or retypes anything already defined (an implicit
\* table may become explicit, nothing else changes)
Monotone ==
  [][ st' = "ok" => \A p \in DOMAIN tree :
        /\ p \in DOMAIN tree'
        /\ tree'[p] # tree[p] => (tree[p] = "imp" /\ tree'[p] = "exp") ]_vars

Kind(k) == IF k \in {"exp", "imp", "dot", "inl"} THEN "T" ELSE IF k \in {"aot", "arr"} THEN "A" ELSE k
Emit == PrintT("@@" \o ToJson(
          [ops |-> ops, st |-> st,
           tree |-> IF st = "ok" THEN {<<p, Kind(tree[p])>> : p \in DOMAIN tree} ELSE {}]))
=============================================================================
