------------------------------ MODULE Nesting ------------------------------
(***************************************************************************)
(* How deeply the values of a document lie in each other.                   *)
(*                                                                          *)
(* State                                                                    *)
(*   runs   what has been opened: [open, count] is so often the same opener *)
(*   depth  how many arrays, tables and key parts lie around the innermost  *)
(*          value                                                           *)
(*   head   what all of it is in: a key with so many parts, a table header  *)
(*          with so many parts, or an array of tables' header               *)
(*   state  "open", then "closed" (every opener) or "short" (one too few)   *)
(*          or "broken" (none)                                              *)
(*                                                                          *)
(* A text of any depth gets its answer. One that nests no deeper than Deep  *)
(* is read; one that is not closed is refused.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Heads, Parts, Openers, Counts, MaxRuns, Deep, Limit

VARIABLES runs, depth, head, state
vars == <<runs, depth, head, state>>

\* "arr" [   "more" [1, ...   "inl" {k =   "two" {j = 1, k =   "dot" {k.k =
Step(o) == IF o = "dot" THEN 2 ELSE 1
Room(d, o, c) == IF d + Step(o) * c > Limit THEN Limit + 1 ELSE d + Step(o) * c

Init == /\ runs = <<>> /\ state = "open"
        /\ \E k \in Heads, p \in Parts : head = [kind |-> k, parts |-> p]
             /\ depth = IF p > Limit THEN Limit + 1 ELSE p
Open == /\ state = "open" /\ Len(runs) < MaxRuns
        /\ \E o \in Openers, c \in Counts :
             /\ runs # <<>> => runs[Len(runs)].open # o
             /\ runs' = Append(runs, [open |-> o, count |-> c])
             /\ depth' = Room(depth, o, c)
        /\ UNCHANGED <<head, state>>
Close == /\ state = "open"
         /\ state' \in IF runs = <<>> THEN {"closed"} ELSE {"closed", "short", "broken"}
         /\ UNCHANGED <<runs, depth, head>>
Next == Open \/ Close
Spec == Init /\ [][Next]_vars

Ended == state # "open"
Answer == IF state # "closed" THEN "refused" ELSE IF depth <= Deep THEN "read" ELSE "any"

(* ------------------------------ properties ------------------------------ *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Step(Head(s).open) * Head(s).count + Sum(Tail(s))
TypeOK == depth <= Limit + 1
DepthIsWhatIsOpen == depth <= Limit => depth = head.parts + Sum(runs)
Deeper == [][depth' >= depth]_vars
OnlyWhatIsClosedIsRead == Answer = "read" => state = "closed"

Emit == Ended => PrintT("@@" \o ToJson([head |-> head, runs |-> runs, state |-> state, answer |-> Answer]))
=============================================================================
