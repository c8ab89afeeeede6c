------------------------------ MODULE JsonSchema ------------------------------
(***************************************************************************)
(* Which documents a JSON Schema accepts.                                  *)
(*                                                                         *)
(* A schema is put together keyword by keyword (Kind, Args), closed        *)
(* (Close), and becomes a part of later ones; the last one is the root.    *)
(* Every finished root is judged on every value of Instances by the rules  *)
(* of its dialect: Eval gives the verdict together with the properties and *)
(* items it has evaluated, which unevaluatedProperties and                 *)
(* unevaluatedItems look at.                                               *)
(*                                                                         *)
(* Sub-schemas are indices into `pool`; 0 is the root itself (only below a *)
(* keyword that descends, so that evaluation ends).  Numbers are counted   *)
(* in halves.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dialects,    \* subset of {"draft-07", "2019-09", "2020-12"}
          Kinds,       \* the keywords used
          MinSchemas, MaxSchemas,  \* closed on the way to the root
          MinKw, MaxKw,            \* keywords of each
          LeafSet,     \* names of ready-made parts
          Strict,      \* objects without additionalProperties are closed
          Recursion,   \* parts may refer to the root
          Defects

VARIABLES dialect, pool, cur, kind, phase, left
vars == <<dialect, pool, cur, kind, phase, left>>

(************************************ values *******************************)
I(n) == [k |-> "int", n |-> 2 * n]
F(h) == [k |-> "flt", n |-> h]
S(s) == [k |-> "str", s |-> s]
B(b) == [k |-> "bool", b |-> b]
A(e) == [k |-> "arr", e |-> e]
T(m) == [k |-> "tbl", m |-> m]
T0 == T(<<>>)
T1(x, v) == T(x :> v)
T2(x, v, y, w) == T((x :> v) @@ (y :> w))
T3(x, v, y, w, z, u) == T((x :> v) @@ (y :> w) @@ (z :> u))

Instances == <<
    I(0), I(1), I(2), I(3), I(-1), I(6), F(3), F(1), F(9), F(-3),
    S(""), S("a"), S("b"), S("ab"), S("xa"), S("xyz"), S("éé"), B(TRUE), B(FALSE),
    A(<<>>), A(<<I(1)>>), A(<<I(1), I(2)>>), A(<<I(1), I(1)>>), A(<<S("a"), I(1)>>), A(<<I(1), S("a"), F(3)>>),
    A(<<S("a")>>), A(<<I(1), I(2), I(3)>>), A(<<A(<<I(1)>>), A(<<I(1)>>)>>), A(<<T1("a", I(1)), T1("a", I(1))>>),
    A(<<T1("a", I(1)), T1("a", I(2))>>), A(<<B(TRUE), I(1)>>), A(<<A(<<>>)>>), A(<<I(1), S("1")>>),
    A(<<S("a"), S("b"), S("a")>>),
    T0, T1("a", I(1)), T1("a", S("a")), T1("b", I(1)), T1("b", S("ab")), T2("a", I(1), "b", I(2)),
    T2("a", S("a"), "b", I(1)), T1("xa", I(1)), T2("a", I(3), "xa", S("b")), T3("a", I(1), "b", I(2), "xa", I(3)),
    T1("a", T1("a", I(1))), T1("a", T1("b", S("a"))), T1("a", A(<<I(1)>>)), T1("b", A(<<S("a"), I(2)>>)),
    T1("a", T1("a", T1("a", S("b")))), T2("a", T0, "b", A(<<>>)), T2("b", I(2), "xa", S("xa")),
    T1("a", A(<<T1("a", I(1)), T1("b", I(2))>>)), T1("xyz", B(TRUE)), T2("xa", I(1), "xyz", I(2)),
    T2("a", T2("a", I(1), "b", S("a")), "b", T1("xa", I(1))) >>

Length(s) == CASE s = "" -> 0 [] s = "a" -> 1 [] s = "b" -> 1 [] s = "1" -> 1 [] s = "ab" -> 2
               [] s = "xa" -> 2 [] s = "xyz" -> 3 [] s = "éé" -> 2
Patterns == {"^x", "a$", "^[ab]$", "b", "^.{2}$"}
Matches(p, s) == CASE p = "^x" -> s \in {"xa", "xyz"}
                   [] p = "a$" -> s \in {"a", "xa"}
                   [] p = "^[ab]$" -> s \in {"a", "b"}
                   [] p = "b" -> s \in {"b", "ab"}
                   [] p = "^.{2}$" -> s \in {"ab", "xa", "éé"}
Keys == {"a", "b", "xa", "xyz"}

(*********************************** schemas *******************************)
Obj(w) == [k |-> "obj", w |-> w]
Bool(b) == [k |-> "bool", b |-> b]
K(w) == [w |-> w]
Leaf(name) ==
    CASE name = "true" -> Bool(TRUE)
      [] name = "false" -> Bool(FALSE)
      [] name = "empty" -> Obj(<<>>)
      [] name = "string" -> Obj(<<[w |-> "type", types |-> {"string"}]>>)
      [] name = "integer" -> Obj(<<[w |-> "type", types |-> {"integer"}]>>)
      [] name = "object" -> Obj(<<[w |-> "type", types |-> {"object"}]>>)
      [] name = "min2" -> Obj(<<[w |-> "minimum", num |-> 4]>>)
      [] name = "long1" -> Obj(<<[w |-> "maxLength", size |-> 1]>>)
      [] name = "const1" -> Obj(<<[w |-> "const", val |-> I(1)]>>)
      [] name = "enum" -> Obj(<<[w |-> "enum", vals |-> <<S("a"), I(1)>>]>>)
      [] name = "reqA" -> Obj(<<[w |-> "required", names |-> {"a"}]>>)
      [] name = "reqB" -> Obj(<<[w |-> "required", names |-> {"b"}]>>)
      [] name = "x" -> Obj(<<[w |-> "pattern", pat |-> "^x"]>>)
LeafOrder == <<"true", "false", "empty", "string", "integer", "object", "min2", "long1", "const1", "enum",
               "reqA", "reqB", "x">>
RECURSIVE Leaves(_)
Leaves(i) == IF i > Len(LeafOrder) THEN <<>>
             ELSE (IF LeafOrder[i] \in LeafSet THEN <<Leaf(LeafOrder[i])>> ELSE <<>>) \o Leaves(i + 1)

Has(s, w) == \E i \in DOMAIN s.w : s.w[i].w = w
Kw(s, w) == s.w[CHOOSE i \in DOMAIN s.w : s.w[i].w = w]

(********************************* evaluation ******************************)
TypesOf(v) == CASE v.k = "int" -> {"integer", "number"} [] v.k = "flt" -> {"number"} [] v.k = "str" -> {"string"}
                [] v.k = "bool" -> {"boolean"} [] v.k = "arr" -> {"array"} [] v.k = "tbl" -> {"object"}
Number(v) == v.k \in {"int", "flt"}
IsSeqPrefix(n, e) == 1..(IF n < Len(e) THEN n ELSE Len(e))
None == [ok |-> TRUE, p |-> {}, x |-> {}]
Fail == [ok |-> FALSE, p |-> {}, x |-> {}]
Is(b) == [ok |-> b, p |-> {}, x |-> {}]

RECURSIVE Eval(_, _, _, _)
Eval(idx, v, P, D) ==
  LET s == IF idx = 0 THEN P[Len(P)] ELSE P[idx]
      keys == IF v.k = "tbl" THEN DOMAIN v.m ELSE {}
      size == IF v.k = "arr" THEN Len(v.e) ELSE 0
      Sub(i) == Eval(i, v, P, D)
      Ok(i, u) == Eval(i, u, P, D).ok
      has(w) == Has(s, w)
      kw(w) == Kw(s, w)
      \* the verdict of each keyword, and what it has evaluated
      props == IF has("properties") THEN DOMAIN kw("properties").map ELSE {}
      patkeys == IF has("patternProperties")
                 THEN {x \in keys : \E p \in DOMAIN kw("patternProperties").map : Matches(p, x)} ELSE {}
      others == IF "additional" \in Defects THEN keys \ props ELSE (keys \ props) \ patkeys
      prefix == IF has("prefixItems") THEN Len(kw("prefixItems").seq)
                ELSE IF has("tuple") THEN Len(kw("tuple").seq) ELSE 0
      hits == {i \in 1..size : Ok(kw("contains").sub, v.e[i])}
      least == IF has("minContains") THEN kw("minContains").size ELSE 1
      Keyword(w) ==
        CASE w.w = "type" -> Is(TypesOf(v) \cap w.types # {})
          [] w.w = "enum" -> Is(\E i \in DOMAIN w.vals : w.vals[i] = v)
          [] w.w = "const" -> Is(w.val = v)
          [] w.w = "minimum" -> Is(Number(v) => v.n >= w.num)
          [] w.w = "maximum" -> Is(Number(v) => v.n <= w.num)
          [] w.w = "exclusiveMinimum" -> Is(Number(v) => v.n > w.num)
          [] w.w = "exclusiveMaximum" -> Is(Number(v) => v.n < w.num)
          [] w.w = "multipleOf" -> Is(Number(v) => v.n % w.num = 0)
          [] w.w = "minLength" -> Is(v.k = "str" => Length(v.s) >= w.size)
          [] w.w = "maxLength" -> Is(v.k = "str" => Length(v.s) <= w.size)
          [] w.w = "pattern" -> Is(v.k = "str" => Matches(w.pat, v.s))
          [] w.w = "minItems" -> Is(v.k = "arr" => size >= w.size)
          [] w.w = "maxItems" -> Is(v.k = "arr" => size <= w.size)
          [] w.w = "uniqueItems" -> Is(v.k = "arr" /\ w.flag => \A i, j \in 1..size : i < j => v.e[i] # v.e[j])
          [] w.w = "minProperties" -> Is(v.k = "tbl" => Cardinality(keys) >= w.size)
          [] w.w = "maxProperties" -> Is(v.k = "tbl" => Cardinality(keys) <= w.size)
          [] w.w = "required" -> Is(v.k = "tbl" => w.names \subseteq keys)
          [] w.w = "dependentRequired" -> Is(v.k = "tbl" => (w.key \in keys => w.names \subseteq keys))
          [] w.w = "dependencyNames" -> Is(v.k = "tbl" => (w.key \in keys => w.names \subseteq keys))
          [] w.w \in {"dependentSchemas", "dependencySchema"} ->
               \* Tombi takes the key for evaluated as well
               IF v.k = "tbl" /\ w.key \in keys THEN LET r == Sub(w.sub) IN [r EXCEPT !.p = @ \cup {w.key}] ELSE None
          [] w.w = "properties" ->
               [ok |-> \A x \in props \cap keys : Ok(w.map[x], v.m[x]), p |-> props \cap keys, x |-> {}]
          [] w.w = "patternProperties" ->
               [ok |-> \A x \in keys, p \in DOMAIN w.map : Matches(p, x) => Ok(w.map[p], v.m[x]),
                p |-> patkeys, x |-> {}]
          [] w.w = "additionalProperties" ->
               [ok |-> \A x \in others : Ok(w.sub, v.m[x]), p |-> others, x |-> {}]
          [] w.w = "propertyNames" -> Is(\A x \in keys : Ok(w.sub, S(x)))
          [] w.w \in {"prefixItems", "tuple"} ->
               [ok |-> \A i \in 1..size : i <= prefix => Ok(w.seq[i], v.e[i]), p |-> {},
                x |-> {i \in 1..size : i <= prefix}]
          [] w.w \in {"items", "additionalItems"} ->
               IF w.w = "additionalItems" /\ ~has("tuple") THEN None
               ELSE [ok |-> \A i \in 1..size : i > prefix => Ok(w.sub, v.e[i]), p |-> {},
                     x |-> {i \in 1..size : i > prefix}]
          [] w.w = "contains" ->
               [ok |-> v.k = "arr" => /\ Cardinality(hits) >= least
                                      /\ has("maxContains") => Cardinality(hits) <= kw("maxContains").size,
                p |-> {}, x |-> IF D = "2020-12" /\ v.k = "arr" THEN hits ELSE {}]
          [] w.w = "allOf" -> LET rs == [i \in DOMAIN w.seq |-> Sub(w.seq[i])]
               IN [ok |-> \A i \in DOMAIN rs : rs[i].ok, p |-> UNION {rs[i].p : i \in DOMAIN rs},
                   x |-> UNION {rs[i].x : i \in DOMAIN rs}]
          [] w.w = "anyOf" -> LET rs == [i \in DOMAIN w.seq |-> Sub(w.seq[i])] good == {i \in DOMAIN rs : rs[i].ok}
               IN [ok |-> good # {}, p |-> UNION {rs[i].p : i \in good}, x |-> UNION {rs[i].x : i \in good}]
          [] w.w = "oneOf" -> LET rs == [i \in DOMAIN w.seq |-> Sub(w.seq[i])] good == {i \in DOMAIN rs : rs[i].ok}
               IN [ok |-> Cardinality(good) = 1, p |-> UNION {rs[i].p : i \in good}, x |-> UNION {rs[i].x : i \in good}]
          [] w.w = "not" -> Is(~Sub(w.sub).ok)
          [] w.w = "$ref" -> Sub(w.sub)
          [] w.w = "if" ->
               LET c == Sub(w.sub) IN
               IF c.ok THEN LET t == IF has("then") THEN Sub(kw("then").sub) ELSE None
                            IN [ok |-> t.ok, p |-> c.p \cup t.p, x |-> c.x \cup t.x]
               ELSE IF has("else") THEN Sub(kw("else").sub) ELSE None
          [] OTHER -> None   \* then, else, minContains, maxContains and the unevaluated ones
      rs == [i \in DOMAIN s.w |-> Keyword(s.w[i])]
      evp == UNION {rs[i].p : i \in DOMAIN rs}
      evx == UNION {rs[i].x : i \in DOMAIN rs}
      restp == IF "unevaluated" \in Defects THEN (keys \ props) \ patkeys ELSE keys \ evp
      restx == {i \in 1..size : i \notin evx}
      closed == Strict /\ ~has("additionalProperties")
  IN CASE s.k = "bool" -> Is(s.b)
       \* before 2019-09 nothing beside a reference counts
       [] s.k = "obj" /\ D = "draft-07" /\ has("$ref") -> Sub(kw("$ref").sub)
       [] OTHER ->
          IF /\ \A i \in DOMAIN rs : rs[i].ok
             /\ has("unevaluatedProperties") => \A x \in restp : Ok(kw("unevaluatedProperties").sub, v.m[x])
             /\ has("unevaluatedItems") => \A i \in restx : Ok(kw("unevaluatedItems").sub, v.e[i])
             /\ closed => others = {}
          THEN [ok |-> TRUE,
                p |-> IF has("unevaluatedProperties") THEN keys ELSE evp,
                x |-> IF has("unevaluatedItems") THEN 1..size ELSE evx]
          ELSE Fail

(********************************** building *******************************)
Known(D) ==
    {"type", "enum", "const", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf",
     "minLength", "maxLength", "pattern", "minItems", "maxItems", "uniqueItems", "minProperties",
     "maxProperties", "required", "properties", "patternProperties", "additionalProperties", "propertyNames",
     "items", "contains", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "$ref"}
    \cup (IF D = "2020-12" THEN {"prefixItems"} ELSE {"tuple", "additionalItems"})
    \cup (IF D # "2020-12" THEN {"dependencyNames", "dependencySchema"} ELSE {})
    \cup (IF D # "draft-07" THEN {"dependentRequired", "dependentSchemas", "unevaluatedProperties",
                                  "unevaluatedItems", "minContains", "maxContains"} ELSE {})
\* one JSON key each
Clash(x, y) == {x, y} \in {{"items", "tuple"}, {"dependencyNames", "dependencySchema"}}
Used == {cur[i].w : i \in DOMAIN cur}

Parts == 1..Len(pool)
Down == Parts \cup (IF Recursion THEN {0} ELSE {})
Seqs(X) == {<<x>> : x \in X} \cup {<<x, y>> : x \in X, y \in X}
Maps(KS, X) == UNION {[ks -> X] : ks \in {ks \in SUBSET KS : Cardinality(ks) \in 1..2}}
Args(w) ==
    CASE w = "type" -> {[w |-> w, types |-> t] : t \in {{"string"}, {"integer"}, {"number"}, {"boolean"}, {"array"},
                          {"object"}, {"string", "integer"}, {"array", "object"}, {"number", "boolean"}, {"null"}}}
      [] w = "enum" -> {[w |-> w, vals |-> t] : t \in {<<I(1), I(2)>>, <<S("a"), B(TRUE)>>, <<F(3), S("ab")>>,
                          <<A(<<I(1)>>), T1("a", I(1))>>, <<T0>>, <<A(<<>>), I(0)>>}}
      [] w = "const" -> {[w |-> w, val |-> t] : t \in {I(2), F(3), S("a"), S(""), B(FALSE), A(<<I(1), I(2)>>), T0,
                          T2("a", I(1), "b", I(2))}}
      [] w \in {"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} ->
           {[w |-> w, num |-> t] : t \in {-2, 2, 3, 4}}
      [] w = "multipleOf" -> {[w |-> w, num |-> t] : t \in {1, 3, 4, 6}}
      [] w \in {"minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"} ->
           {[w |-> w, size |-> t] : t \in 0..2}
      [] w = "minContains" -> {[w |-> w, size |-> t] : t \in 0..2}
      [] w = "maxContains" -> {[w |-> w, size |-> t] : t \in 0..2}
      [] w = "pattern" -> {[w |-> w, pat |-> t] : t \in Patterns}
      [] w = "uniqueItems" -> {[w |-> w, flag |-> t] : t \in BOOLEAN}
      [] w = "required" -> {[w |-> w, names |-> t] : t \in {{"a"}, {"b"}, {"a", "b"}}}
      [] w \in {"dependentRequired", "dependencyNames"} ->
           {[w |-> w, key |-> x, names |-> t] : x \in {"a", "xa"}, t \in {{"b"}, {"a", "b"}, {}}}
      [] w \in {"dependentSchemas", "dependencySchema"} ->
           {[w |-> w, key |-> x, sub |-> t] : x \in {"a", "xa"}, t \in Parts}
      [] w = "properties" -> {[w |-> w, map |-> t] : t \in Maps({"a", "b"}, Down)}
      [] w = "patternProperties" -> {[w |-> w, map |-> t] : t \in Maps({"^x", "a$"}, Down)}
      [] w \in {"additionalProperties", "unevaluatedProperties", "unevaluatedItems", "items", "additionalItems",
                "contains"} -> {[w |-> w, sub |-> t] : t \in Down}
      [] w \in {"prefixItems", "tuple"} -> {[w |-> w, seq |-> t] : t \in Seqs(Down)}
      [] w \in {"allOf", "anyOf", "oneOf"} -> {[w |-> w, seq |-> t] : t \in Seqs(Parts)}
      [] w \in {"not", "if", "then", "else", "propertyNames", "$ref"} -> {[w |-> w, sub |-> t] : t \in Parts}

Init == /\ dialect \in Dialects /\ pool = Leaves(1) /\ cur = <<>> /\ kind = "" /\ phase = "size"
        /\ left = [schemas |-> 0, kws |-> 0]

\* how many schemas
Size == /\ phase = "size"
        /\ \E n \in MinSchemas..MaxSchemas, m \in MinKw..MaxKw : left' = [schemas |-> n, kws |-> m]
        /\ phase' = "kind"
        /\ UNCHANGED <<dialect, pool, cur, kind>>
Kind == /\ phase = "kind" /\ left.kws > 0
        /\ \E w \in (Kinds \cap Known(dialect)) \ Used :
             /\ ~\E u \in Used : Clash(u, w)
             /\ w \in {"then", "else"} => "if" \in Used
             /\ w \in {"minContains", "maxContains"} => "contains" \in Used
             /\ w = "additionalItems" => "tuple" \in Used
             \* before 2019-09 nothing counts beside a reference; left open here
             /\ dialect = "draft-07" => "$ref" \notin Used /\ (w = "$ref" => Used = {})
             /\ kind' = w
        /\ phase' = "args"
        /\ UNCHANGED <<dialect, pool, cur, left>>
Args_ == /\ phase = "args"
         /\ \E a \in Args(kind) : cur' = Append(cur, a)
         /\ left' = [left EXCEPT !.kws = @ - 1]
         /\ phase' = "kind" /\ kind' = ""
         /\ UNCHANGED <<dialect, pool>>
Close == /\ phase = "kind" /\ left.kws = 0
         /\ pool' = Append(pool, Obj(cur)) /\ cur' = <<>>
         /\ IF left.schemas = 1 THEN phase' = "done" /\ left' = [schemas |-> 0, kws |-> 0]
            ELSE /\ phase' = "kind"
                 /\ \E m \in MinKw..MaxKw : left' = [schemas |-> left.schemas - 1, kws |-> m]
         /\ UNCHANGED <<dialect, kind>>
Next == Size \/ Kind \/ Args_ \/ Close
Spec == Init /\ [][Next]_vars

(*********************************** laws **********************************)
Root == Len(pool)
Judge(v) == Eval(Root, v, pool, dialect)
Check(w, v) == LET P == Append(pool, w) IN Eval(Len(P), v, P, dialect).ok

TypeOK == phase \in {"size", "kind", "args", "done"}
\* what is evaluated is there, and nothing is left to a value that fails
Sane == phase = "done" => \A i \in DOMAIN Instances : LET v == Instances[i] r == Judge(v) IN
    /\ r.p \subseteq (IF v.k = "tbl" THEN DOMAIN v.m ELSE {})
    /\ r.x \subseteq (IF v.k = "arr" THEN 1..Len(v.e) ELSE {})
    /\ ~r.ok => r.p = {} /\ r.x = {}
\* laws of the applicators, whatever their parts are
Laws == phase = "done" => \A i \in DOMAIN Instances : LET v == Instances[i] r == Judge(v).ok IN
    /\ Check(Obj(<<[w |-> "not", sub |-> Root]>>), v) = ~r
    /\ Check(Obj(<<[w |-> "allOf", seq |-> <<Root, Root>>]>>), v) = r
    /\ Check(Obj(<<[w |-> "anyOf", seq |-> <<Root, Root>>]>>), v) = r
    /\ ~Check(Obj(<<[w |-> "oneOf", seq |-> <<Root, Root>>]>>), v)
    /\ Check(Obj(<<[w |-> "if", sub |-> Root], [w |-> "then", sub |-> Root], [w |-> "else", sub |-> Root]>>), v) = r
    /\ Check(Obj(<<[w |-> "$ref", sub |-> Root]>>), v) = r
\* closing an object after all that has evaluated it leaves nothing over
Closing == phase = "done" /\ dialect # "draft-07" /\ "false" \in LeafSet => \A i \in DOMAIN Instances :
    LET v == Instances[i] r == Judge(v) no == CHOOSE j \in DOMAIN pool : pool[j].k = "bool" /\ ~pool[j].b IN
    v.k = "tbl" =>
      Check(Obj(<<[w |-> "$ref", sub |-> Root], [w |-> "unevaluatedProperties", sub |-> no]>>), v)
        = (r.ok /\ r.p = DOMAIN v.m)
\* additionalProperties: false and unevaluatedProperties: false are the same without applicators
Plain == phase = "done" /\ dialect # "draft-07" /\ "false" \in LeafSet
         /\ ~(\E w \in {"allOf", "anyOf", "oneOf", "if", "$ref", "dependentSchemas", "dependencySchema",
                        "additionalProperties", "unevaluatedProperties"} : Has(pool[Root], w)) =>
    LET no == CHOOSE j \in DOMAIN pool : pool[j].k = "bool" /\ ~pool[j].b IN
    \A i \in DOMAIN Instances :
      Check(Obj(pool[Root].w \o <<[w |-> "additionalProperties", sub |-> no]>>), Instances[i])
        = Check(Obj(pool[Root].w \o <<[w |-> "unevaluatedProperties", sub |-> no]>>), Instances[i])

Emit == phase = "done" =>
    PrintT("@@" \o ToJson([d |-> dialect, strict |-> Strict, pool |-> pool, values |-> Instances,
        want |-> [i \in DOMAIN Instances |-> Judge(Instances[i]).ok]]))
=============================================================================
