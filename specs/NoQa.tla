-------------------------------- MODULE NoQa --------------------------------
(***************************************************************************)
(* What a comment `# tombi: lint.rules.RULE.disabled = true` silences.      *)
(*                                                                          *)
(* State                                                                    *)
(*   viol   the violations in a document: pairs of a place and a rule       *)
(*   noqa   the directives in it: pairs of a point, that is where a comment *)
(*          can stand, and a rule                                           *)
(*                                                                          *)
(* A document with one value of every kind, in every kind of container, is  *)
(* broken in one place after the other, and directives are written in one   *)
(* after the other. A directive is about the value or key that its comment  *)
(* belongs to and about nothing else: not about values inside of it, not    *)
(* about other rules, not about its neighbours. One that silences nothing   *)
(* is reported for being there.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Places, Points, Extra, MaxViol, MaxNoqa, Related, Defects

VARIABLES viol, noqa
vars == <<viol, noqa>>

Kind == [root |-> "table", u |-> "key", a |-> "integer", f |-> "float", s |-> "string", b |-> "boolean",
         o |-> "date", x |-> "table", y |-> "integer", r |-> "array", el |-> "integer", es |-> "string", i |-> "table",
         c |-> "integer", iu |-> "key", t |-> "table", d |-> "integer", tf |-> "float", v |-> "key",
         w |-> "array", wi |-> "table", h |-> "string"]
Parent == [root |-> "-", u |-> "root", a |-> "root", f |-> "root", s |-> "root", b |-> "root", o |-> "root",
           x |-> "root", y |-> "x", r |-> "root", el |-> "r", es |-> "r", i |-> "root", c |-> "i", iu |-> "i", t |-> "root",
           d |-> "t", tf |-> "t", v |-> "t", w |-> "root", wi |-> "w", h |-> "wi"]

Common == {"type-mismatch", "const-value", "enum", "deprecated", "one-of-multiple-match", "not-schema-match"}
KeyRules == {"key-not-allowed", "key-pattern"}
TableRules == {"table-max-keys", "table-min-keys", "table-key-required"}
Own(kind) ==
  CASE kind = "integer" -> {"integer-maximum", "integer-minimum", "integer-exclusive-maximum",
                            "integer-exclusive-minimum", "integer-multiple-of"}
    [] kind = "float"   -> {"float-maximum", "float-minimum", "float-exclusive-maximum",
                            "float-exclusive-minimum", "float-multiple-of"}
    [] kind = "string"  -> {"string-max-length", "string-min-length", "string-pattern", "string-format"}
    [] kind = "array"   -> {"array-max-values", "array-min-values", "array-unique-values"}
    [] kind = "table"   -> TableRules
    [] OTHER            -> {}
Rules(kind) == IF kind = "key" THEN KeyRules ELSE Common \cup Own(kind)
Breaks(p) == Rules(Kind[p]) \ CASE p = "root" -> {"type-mismatch"}
                                [] p = "w"    -> {"array-unique-values"}
                                [] OTHER      -> {}
AllRules == UNION {Rules(Kind[p]) : p \in DOMAIN Kind}

(* ---- where comments stand ---------------------------------------------- *)
\* L before it, M a second line there, T after it on its line, S after its opening
\* bracket, I inside of it before its first item and set apart by a blank line
Of == [
  root |-> {"root"},
  La |-> {"a"}, Ma |-> {"a"}, Ta |-> {"a"}, Lf |-> {"f"}, Tf |-> {"f"}, Ls |-> {"s"}, Ts |-> {"s"},
  Lb |-> {"b"}, Tb |-> {"b"}, Lo |-> {"o"}, To |-> {"o"}, Lu |-> {"u"}, Tu |-> {"u"},
  Ly |-> {"y", "x"}, Ty |-> {"y", "x"},
  Lr |-> {"r"}, Sr |-> {"r"}, Ir |-> {"r"}, Tr |-> {"r"}, Lel |-> {"el"}, Tel |-> {"el"}, Les |-> {"es"}, Tes |-> {"es"},
  Li |-> {"i"}, Si |-> {"i"}, Ii |-> {"i"}, Ti |-> {"i"}, Lc |-> {"c"}, Tc |-> {"c"}, Liu |-> {"iu"}, Tiu |-> {"iu"},
  Lt |-> {"t"}, Mt |-> {"t"}, Tt |-> {"t"}, It |-> {"t"}, Ld |-> {"d"}, Td |-> {"d"}, Ltf |-> {"tf"}, Ttf |-> {"tf"},
  Lv |-> {"v"}, Tv |-> {"v"},
  Lw |-> {"w"}, Tw |-> {"w"}, Iw |-> {"wi"}, Lh |-> {"h"}, Th |-> {"h"}]

(* ---- what a directive does --------------------------------------------- *)
Reaches(n) == IF "whole" \in Defects
              THEN Of[n.point] \cup {q \in DOMAIN Kind : Parent[q] \in Of[n.point]}
              ELSE Of[n.point]
Silences(n, v) == /\ v.place \in Reaches(n)
                  /\ v.rule = n.rule \/ "any" \in Defects
Silenced(v) == \E n \in noqa : Silences(n, v)
RECURSIVE Within(_, _)
Within(p, q) == p = q \/ (Parent[p] # "-" /\ Within(Parent[p], q))
\* that something is deprecated is said only of what there is nothing else to say of
Told(v) == ~Silenced(v)
Shown == {v \in viol : Told(v) /\ (v.rule = "deprecated" =>
            ~\E w \in viol : w # v /\ w.rule # "deprecated" /\ Told(w) /\ Within(w.place, v.place))}

\* A rule that is never about a value of that kind
Foreign(n) == n.rule \notin KeyRules \cup TableRules \cup Extra /\ \A p \in Of[n.point] : n.rule \notin Rules(Kind[p])
Useless(n) == n.rule \notin Extra /\ ~Foreign(n) /\ (\E p \in Of[n.point] : n.rule \in Rules(Kind[p])) /\ ~\E v \in viol : Silences(n, v)

(* ---- steps -------------------------------------------------------------- *)
V(p, r) == [place |-> p, rule |-> r]
N(p, r) == [point |-> p, rule |-> r]
\* a value of the wrong type is told only that
Late == {"one-of-multiple-match", "not-schema-match"}   \* told of apart from the rest
Agree(v, w) ==
  LET both == {v.rule, w.rule} IN
  /\ v.place # w.place \/ (/\ "type-mismatch" \notin both
                            /\ both # {"key-not-allowed", "key-pattern"}
                            /\ ("deprecated" \notin both \/ both \cap Late = {}))
  /\ "type-mismatch" \notin both \/ ~(Within(v.place, w.place) \/ Within(w.place, v.place))
\* only one of these is said of an undeclared key, and of all in that table
Violate(v) ==
  /\ Cardinality(viol) < MaxViol /\ noqa = {}
  /\ \A w \in viol : w /= v /\ Agree(v, w)
  /\ viol' = viol \cup {v}
  /\ UNCHANGED noqa
IsRelated(n) == \/ ~Related
                \/ \E v \in viol : n.rule = v.rule \/ v.place \in Of[n.point]
Write(n) ==
  /\ Cardinality(noqa) < MaxNoqa /\ viol /= {}
  /\ IsRelated(n)
  /\ \A m \in noqa : m.point /= n.point
  /\ noqa' = noqa \cup {n}
  /\ UNCHANGED viol

Init == viol = {} /\ noqa = {}
Next == \/ \E p \in Places : \E r \in Breaks(p) : Violate(V(p, r))
        \/ \E q \in Points : \E r \in AllRules \cup Extra : Write(N(q, r))
Spec == Init /\ [][Next]_vars

(* ---- properties --------------------------------------------------------- *)
TypeOK == /\ \A v \in viol : v.rule \in Rules(Kind[v.place])
          /\ {n.point : n \in noqa} \subseteq DOMAIN Of
\* nothing is said of what is right, and a document without directives is told all
OnlyViolations == /\ Shown \subseteq viol
                  /\ noqa = {} => \A v \in viol \ Shown : v.rule = "deprecated" /\ \E w \in Shown : Within(w.place, v.place)
\* a directive takes away what it names and nothing more
Exactly == \A v \in viol \ Shown : v.rule # "deprecated" => \E n \in noqa : n.rule = v.rule /\ v.place \in Of[n.point]
\* children are told what their container is not
NotInside == \A v \in Shown : ~\E n \in noqa : n.rule = v.rule /\ v.place \in Of[n.point]
NeverMore == [][noqa' # noqa => \A v \in Shown' \ Shown : v.rule = "deprecated"]_vars
\* every directive silences, is useless or is foreign
Accounted == \A n \in noqa : n.rule \in KeyRules \cup TableRules \cup Extra \/ Foreign(n) \/ Useless(n) \/ \E v \in viol \ Shown : v.rule = n.rule

\* what is said of a directive is left open where the same rule is named at two points
\* of a value, where it is about two values, where its value or one around it is of the
\* wrong type
Twice(n) == \E m \in noqa : m /= n /\ m.rule = n.rule /\ Of[m.point] \cap Of[n.point] /= {}
Mismatched(n) == \E v \in viol : \E p \in Of[n.point] : Within(p, v.place) /\ v.rule = "type-mismatch"
\* nothing but rules of keys is read at the value of an undeclared key
Loose(n) == \A p \in Of[n.point] : Kind[p] = "key" /\ Foreign(n)
Quiet(n) == \E m \in noqa : m.rule = "unused-noqa" /\ Of[m.point] \cap Of[n.point] /= {}
\* and for those rules that tombi never calls unused
Counted(n) == \A p \in Of[n.point] : \/ n.rule \in Own(Kind[p]) \ {"table-key-required"}
                                    \/ (n.rule \in {"enum", "const-value"} /\ Kind[p] \notin {"table", "array", "key"})
Said(n) == CASE Twice(n) \/ Mismatched(n) \/ Quiet(n) \/ Cardinality(Of[n.point]) > 1 \/ Loose(n) \/ n.rule = "unused-noqa" -> "open"
             [] Foreign(n) -> "foreign"
             [] Useless(n) -> IF Counted(n) THEN "useless" ELSE "open"
             [] \E v \in viol : Silences(n, v) -> "used"
             [] OTHER -> "open"

Emit ==
  noqa = {} \/ PrintT("@@" \o ToJson([
    viol |-> viol, shown |-> Shown,
    maybe |-> {v \in Shown : v.rule = "deprecated" /\
                 \E n \in noqa : \E p \in Of[n.point] : Within(p, v.place) /\ Said(n) # "used"},
    noqa |-> {[point |-> n.point, rule |-> n.rule, said |-> Said(n)] : n \in noqa}]))
=============================================================================
