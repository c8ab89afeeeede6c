----------------------------- MODULE StyleOrder -----------------------------
(***************************************************************************)
(* Which tables and dotted keys are told to be out of order, which keys to  *)
(* be empty, and how loudly.                                                *)
(*                                                                          *)
(* State                                                                    *)
(*   how    what decides the level, fixed from the start:                   *)
(*          what  tables, dotted keys, or empty keys                        *)
(*          site  where the dotted keys are: root, table, aot, inline       *)
(*          conf  the level in [lint.rules]                                 *)
(*          over  the level in the [[overrides]] of the file                *)
(*          dir   a directive of the table: none, lint (the rule is         *)
(*                disabled) or format (the order of keys is)                *)
(*          doc   whether lint.disabled = true for the document             *)
(*   lines  the names so far                                                *)
(*                                                                          *)
(* What belongs to one name has to be together; where something else is     *)
(* between, all of that name are told.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Whats, Sites, Levels, Dirs, Docs, Names, Spellings, MaxLines, Defects

VARIABLES how, lines
vars == <<how, lines>>

Hows == {h \in [what: Whats, site: Sites, conf: Levels, over: Levels, dir: Dirs, doc: Docs] :
           /\ h.what = "tables" => h.site = "root"
           /\ h.what = "empty" => h.dir # "format"}

Of(name) == {i \in DOMAIN lines : lines[i].name = name}
\* something of another name is between two of this name
Torn(name) == \E i, j \in Of(name) : \E k \in DOMAIN lines : i < k /\ k < j /\ lines[k].name # name
TornDefect(name) == \E i \in Of(name) : i + 2 \in Of(name) /\ lines[i + 1].name # name
Subjects ==
  IF how.what = "empty" THEN {i \in DOMAIN lines : lines[i].name = ""}
  ELSE {i \in DOMAIN lines : IF "near" \in Defects THEN TornDefect(lines[i].name) ELSE Torn(lines[i].name)}
Level == IF how.over # "-" /\ "conf_wins" \notin Defects THEN how.over
         ELSE IF how.conf # "-" THEN how.conf
         ELSE IF how.over # "-" THEN how.over ELSE "warn"
Told == IF how.doc \/ how.dir # "-" \/ Level = "off" THEN {} ELSE Subjects

Init == how \in Hows /\ lines = <<>>
Add(n, s) ==
  /\ Len(lines) < MaxLines /\ (n = "" => how.what = "empty")
  /\ lines' = Append(lines, [name |-> n, as |-> s])
  /\ UNCHANGED how
Next == \E n \in Names : \E s \in Spellings : Add(n, s)
Spec == Init /\ [][Next]_vars

(* ---- properties --------------------------------------------------------- *)
TypeOK == how \in Hows /\ Len(lines) <= MaxLines
\* all of a name are told, or none
Together == how.what = "empty" \/ \A n \in {lines[i].name : i \in DOMAIN lines} : Of(n) \subseteq Subjects \/ Of(n) \cap Subjects = {}
\* what is sorted by name is not told; what is told would not be if it were together
SortedIsFine == how.what = "empty" \/
  ((\A i, j \in DOMAIN lines : i < j /\ lines[i].name = lines[j].name =>
      \A k \in DOMAIN lines : i < k /\ k < j => lines[k].name = lines[i].name) <=> Subjects = {})
\* the override of the file decides, then the configuration, then it is a warning
OverrideWins == how.over # "-" => Level = how.over
Quiet == how.dir # "-" \/ how.doc => Told = {}
\* once out of order, always
Stays == [][how.what # "empty" => Subjects \subseteq Subjects']_vars

Emit == lines = <<>> \/ PrintT("@@" \o ToJson([how |-> how, lines |-> lines, told |-> Told, level |-> Level]))
=============================================================================
