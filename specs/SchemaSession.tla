--------------------------- MODULE SchemaSession ---------------------------
(***************************************************************************)
(* Which schema, TOML version and strictness a running language server      *)
(* applies, while configurations, associations and schemas change.          *)
(*                                                                          *)
(* State                                                                    *)
(*   disk    per project its configuration [sch, strict, ver]: a schema for *)
(*           x.toml, the strictness and the TOML version (not given: "-")   *)
(*   editor  the configuration of the editor, which stands for files of no  *)
(*           project; its version also where a project gives none:          *)
(*           [strict, ver]                                                  *)
(*   assoc   the associations (tombi/associateSchema), in order:            *)
(*           [sch, inc, force, ver]                                         *)
(*   lists   per project, and for "none": the associations in force there   *)
(*   gen     per schema: how often it has been rewritten                    *)
(*   hist    what has been done and what each document is then under        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Schemas, Versions, Stricts, Projects, MaxSteps, Defects

VARIABLES disk, editor, assoc, lists, gen, hist, done
vars == <<disk, editor, assoc, lists, gen, hist, done>>

Opt(S) == {"-"} \cup S
Or(a, b) == IF a # "-" THEN a ELSE b
Places == Projects \cup {"none"}
\* of the schemas, the second asks for a TOML version itself
Asks(s) == IF s = "s2" THEN "v1.1.0" ELSE "-"

(* ------------------------- what is in force ----------------------------- *)
Conf(p, dk, ed) == IF p = "none" THEN [sch |-> "-", strict |-> ed.strict, ver |-> ed.ver] ELSE dk[p]
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Here(q) == SelectSeq(q, LAMBDA a : a.inc = "x.toml")
\* the forced ones, the latest first, those of the configuration, the others
Candidates(p, dk, ed, ls) ==
  LET c == Conf(p, dk, ed).sch
      mine == Here(ls[p]) IN
     Reverse(SelectSeq(mine, LAMBDA a : a.force))
  \o (IF c = "-" THEN <<>> ELSE <<[sch |-> c, ver |-> "-"]>>)
  \o SelectSeq(mine, LAMBDA a : ~a.force)
Under(p, dk, ed, ls, g) ==
  LET c == Conf(p, dk, ed)
      all == Candidates(p, dk, ed, ls)
      root == IF all = <<>> THEN "-" ELSE all[1].sch
      lower == Or(IF root = "-" THEN "-" ELSE Asks(root), Or(c.ver, Or(ed.ver, "v1.0.0"))) IN
  [sch |-> root,
   gen |-> IF root = "-" THEN 0 ELSE g[root],
   strict |-> Or(c.strict, "true"),
   ver |-> IF all = <<>> THEN lower ELSE Or(all[1].ver, lower)]
View(dk, ed, ls, g) == [p \in Places |-> Under(p, dk, ed, ls, g)]

(* -------------------------------- actions ------------------------------- *)
Confs == [sch : Opt(Schemas), strict : Opt(Stricts), ver : Opt(Versions)]
Init ==
  /\ disk \in [Projects -> {c \in Confs : c.ver = "-" /\ c.strict # "true"}]
  /\ editor = [strict |-> "-", ver |-> "-"]
  /\ assoc = <<>> /\ lists = [p \in Places |-> <<>>]
  /\ gen = [s \in Schemas |-> 0]
  /\ hist = <<[act |-> [do |-> "start", disk |-> disk], view |-> View(disk, editor, lists, gen)]>>
  /\ done = FALSE

Do(a) == hist' = Append(hist, [act |-> a, view |-> View(disk', editor', lists', gen')])
Open == ~done /\ Len(hist) <= MaxSteps

Associate == /\ Open
             /\ \E s \in Schemas, i \in {"x.toml", "y.toml"}, f \in BOOLEAN, v \in Opt(Versions) :
                  LET a == [sch |-> s, inc |-> i, force |-> f, ver |-> v] IN
                  /\ assoc' = Append(assoc, a)
                  /\ lists' = [p \in Places |-> Append(lists[p], a)]
                  /\ UNCHANGED <<disk, editor, gen, done>>
                  /\ Do([do |-> "associate", what |-> a])
\* a project's configuration is rewritten and tombi/updateConfig asked for
Rewrite == /\ Open
           /\ \E p \in Projects, c \in Confs :
                /\ c # disk[p]
                /\ disk' = [disk EXCEPT ![p] = c]
                /\ lists' = IF "update_forgets" \in Defects THEN [lists EXCEPT ![p] = <<>>] ELSE lists
                /\ UNCHANGED <<editor, assoc, gen, done>>
                /\ Do([do |-> "rewrite", project |-> p, what |-> c])
Editor == /\ Open
          /\ \E t \in Opt(Stricts), v \in Opt(Versions) :
               /\ editor' = [strict |-> t, ver |-> v]
               /\ lists' = IF "editor_unforces" \in Defects
                           THEN [lists EXCEPT !["none"] = [i \in DOMAIN @ |-> [@[i] EXCEPT !.force = FALSE]]] ELSE lists
               /\ UNCHANGED <<disk, assoc, gen, done>>
               /\ Do([do |-> "editor", what |-> editor'])
\* a schema is rewritten and tombi/updateSchema asked for
Publish == /\ Open
           /\ \E s \in Schemas :
                /\ gen' = [gen EXCEPT ![s] = @ + 1]
                /\ UNCHANGED <<disk, editor, assoc, lists, done>>
                /\ Do([do |-> "publish", what |-> s])
Refresh == /\ Open
           /\ UNCHANGED <<disk, editor, assoc, lists, gen, done>>
           /\ Do([do |-> "refresh"])
Finish == /\ ~done /\ Len(hist) > MaxSteps
          /\ done' = TRUE
          /\ UNCHANGED <<disk, editor, assoc, lists, gen, hist>>
Next == Associate \/ Rewrite \/ Editor \/ Publish \/ Refresh \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Now == View(disk, editor, lists, gen)
Mine == Here(assoc)
Forced == SelectSeq(Mine, LAMBDA a : a.force)
\* an association holds everywhere, and for good
SameEverywhere == \A p \in Places : lists[p] = assoc
LatestForcedWins == Forced # <<>> => \A p \in Places : Now[p].sch = Forced[Len(Forced)].sch
ConfBeatsAppended == \A p \in Projects :
  (Forced = <<>> /\ disk[p].sch # "-") => Now[p].sch = disk[p].sch
\* what is done to one project is not seen in another
Apart == [][\A p \in Projects : (\E c \in Confs : disk' = [disk EXCEPT ![p] = c] /\ disk' # disk)
              => \A q \in Places \ {p} : View(disk', editor', lists', gen')[q] = Now[q]]_vars
TypeOK == \A p \in Places : Now[p].ver \in Versions /\ Now[p].strict \in Stricts

Emit == done => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
