------------------------------ MODULE CliBatch ------------------------------
(***************************************************************************)
(* `tombi format` and `tombi lint` over a batch of files.                   *)
(*                                                                          *)
(* The command looks at its arguments one after the other (Dispatch): an    *)
(* argument is passed over, fails, or becomes a task.  The tasks run side   *)
(* by side; a format task reads the file, formats the text, and if that     *)
(* changes it empties the file and writes the new text, or, when the write  *)
(* fails, puts the old text back.  When all tasks are finished the summary  *)
(* is printed and the exit code chosen.                                     *)
(*                                                                          *)
(* State                                                                    *)
(*   input   the kinds of the files given, in order                         *)
(*   mode    format, check, diff, checkdiff, lint, lintw (--error-on-       *)
(*           warnings); with "in" added the text comes from standard input  *)
(*   full    writes of long texts fail (disk full)                          *)
(*   next    the argument to look at next                                   *)
(*   pc      per file: where its task is                                    *)
(*   disk    per file: "orig", "empty", "formatted"                         *)
(*   printed per file: what standard output gets, with standard input       *)
(*   res     per file: the outcome it is counted under                      *)
(*   exit    exit code once finished, 9 before                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, MinFiles, MaxFiles, Modes, Fulls, Defects

VARIABLES input, mode, full, next, pc, disk, printed, res, exit
vars == <<input, mode, full, next, pc, disk, printed, res, exit>>

(* ----------------------------- file kinds ------------------------------ *)
Stdin == mode \in {"formatin", "checkin", "lintin", "lintwin"}
Lint == mode \in {"lint", "lintw", "lintin", "lintwin"}
Check == mode \in {"check", "checkdiff", "checkin"}
Strict == mode \in {"lintw", "lintwin"}
ReadOnly == Check \/ Lint
\* unf unformatted, big unformatted and long, bigr the same with a short
\* original, ok formatted, empty an empty file, warn/lerr formatted with a lint
\* warning/error, mix with both, warnunf unformatted with a lint warning, bad
\* not TOML, badwarn neither TOML nor without warnings,
\* nonutf not text, missing no such file, noread/ro/rook no permission to
\* read/write/write, off switched off by an override, excl excluded
Unformatted == {"unf", "big", "warnunf", "ro"}
Big == {"big"}
Exists(k) == k # "missing"
Openable(k) == k # "noread" /\ (k \in {"ro", "rook"} => ReadOnly)
IsText(k) == k # "nonutf"
Parses(k) == k \notin {"bad", "badwarn"}
Issue(k) == CASE k \in {"bad", "badwarn", "lerr", "mix", "mix2"} -> "error"
              [] k \in {"warn", "warnunf"} -> "warning"
              [] OTHER -> "none"

Init == /\ input \in UNION {[1..n -> Kinds] : n \in MinFiles..MaxFiles}
        /\ mode \in Modes
        /\ full \in Fulls
        /\ next = 1
        /\ pc = [i \in DOMAIN input |-> "none"]
        /\ disk = [i \in DOMAIN input |-> "orig"]
        /\ printed = [i \in DOMAIN input |-> "none"]
        /\ res = [i \in DOMAIN input |-> "none"]
        /\ exit = 9

Set(f, i, v) == [f EXCEPT ![i] = v]
Finish(i, r) == pc' = Set(pc, i, "done") /\ res' = Set(res, i, r)

Output(i, what) == printed' = IF Stdin /\ ~ReadOnly THEN Set(printed, i, what) ELSE printed

Dispatch ==
  /\ next <= Len(input)
  /\ LET i == next
         k == input[i] IN
     CASE ~Exists(k)            -> Finish(i, "failed")
       [] k = "excl"            -> Finish(i, "skipped")
       [] k = "off"             -> Finish(i, "same")
       [] ~Openable(k)          -> Finish(i, "failed")
       [] OTHER                 -> pc' = Set(pc, i, "read") /\ UNCHANGED res
  /\ IF input[next] = "off" /\ "off_swallows" \notin Defects THEN Output(next, "orig") ELSE UNCHANGED printed
  /\ next' = next + 1
  /\ UNCHANGED <<input, mode, full, disk, exit>>

Read(i) ==
  /\ pc[i] = "read"
  /\ LET k == input[i] IN
     IF ~IsText(k) THEN Finish(i, "failed")
     ELSE pc' = Set(pc, i, IF Lint THEN "lint" ELSE "format") /\ UNCHANGED res
  /\ UNCHANGED <<input, mode, full, next, disk, printed, exit>>

LintIt(i) ==
  /\ pc[i] = "lint"
  /\ LET k == input[i] IN
     Finish(i, CASE Issue(k) = "error" -> "failed"
                 [] Issue(k) = "warning" /\ Strict -> "failed"
                 [] OTHER -> "same")
  /\ UNCHANGED <<input, mode, full, next, disk, printed, exit>>

Format(i) ==
  /\ pc[i] = "format"
  /\ LET k == input[i] IN
     CASE ~Parses(k)           -> Finish(i, "failed")
       [] k \notin Unformatted -> Finish(i, "same")
       [] ReadOnly             -> Finish(i, "failed")
       [] Stdin                -> Finish(i, "changed")
       [] OTHER                -> pc' = Set(pc, i, "truncate") /\ UNCHANGED res
  /\ Output(i, IF ~Parses(input[i]) THEN "orig" ELSE "formatted")
  /\ UNCHANGED <<input, mode, full, next, disk, exit>>

Truncate(i) ==
  /\ pc[i] = "truncate"
  /\ disk' = Set(disk, i, "empty")
  /\ pc' = Set(pc, i, "write")
  /\ UNCHANGED <<input, mode, full, next, printed, res, exit>>

Write(i) ==
  /\ pc[i] = "write"
  /\ IF full /\ input[i] \in Big
     THEN /\ disk' = IF "no_restore" \in Defects THEN disk ELSE Set(disk, i, "orig")
          /\ Finish(i, IF "write_error_lost" \in Defects THEN "changed" ELSE "failed")
     ELSE disk' = Set(disk, i, "formatted") /\ Finish(i, "changed")
  /\ UNCHANGED <<input, mode, full, next, printed, exit>>

Count(r) == Cardinality({i \in DOMAIN res : res[i] = r})
Summary ==
  /\ exit = 9
  /\ next > Len(input)
  /\ \A i \in DOMAIN pc : pc[i] = "done"
  /\ exit' = IF Count("failed") > 0 THEN 1 ELSE 0
  /\ UNCHANGED <<input, mode, full, next, pc, disk, printed, res>>

Next == Dispatch \/ Summary
        \/ \E i \in DOMAIN input : Read(i) \/ LintIt(i) \/ Format(i) \/ Truncate(i) \/ Write(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ properties ----------------------------- *)
Done == exit # 9
Whole == Done => \A i \in DOMAIN disk : disk[i] \in {"orig", "formatted"}
ReadOnlyWritesNothing == ReadOnly => \A i \in DOMAIN disk : disk[i] = "orig"
\* a filter must not lose the text it is given
NothingSwallowed == Done /\ Stdin /\ ~ReadOnly => \A i \in DOMAIN input : IsText(input[i]) => printed[i] # "none"
ChangedIffCounted == Done /\ ~Stdin => \A i \in DOMAIN disk : (disk[i] = "formatted") <=> (res[i] = "changed")
EveryFileCounted == Done => Count("changed") + Count("same") + Count("skipped") + Count("failed") = Len(input)
\* what a file comes to depends on nothing but itself
Alone(k) ==
  CASE k = "missing" -> "failed"
    [] k = "excl" -> "skipped"
    [] k = "off" -> "same"
    [] ~Openable(k) \/ ~IsText(k) -> "failed"
    [] Lint -> IF Issue(k) = "error" \/ (Issue(k) = "warning" /\ Strict) THEN "failed" ELSE "same"
    [] ~Parses(k) -> "failed"
    [] k \in Unformatted -> IF ReadOnly \/ (full /\ k \in Big) THEN "failed" ELSE "changed"
    [] OTHER -> "same"
Independent == Done => \A i \in DOMAIN input : res[i] = Alone(input[i])
ExitCode == Done => (exit = 1 <=> \E i \in DOMAIN input : res[i] = "failed")
Terminates == <>Done

(* ------------------------------- vectors ------------------------------- *)
Emit == Done => PrintT("@@" \o ToJson([input |-> input, mode |-> mode, full |-> full, disk |-> disk, printed |-> printed,
                  res |-> res, exit |-> exit]))
=============================================================================
