---------------------------- MODULE ConfigSearch ----------------------------
(***************************************************************************)
(* Which configuration file is used.                                       *)
(*                                                                         *)
(* From the directory the search starts in, upwards, each directory is     *)
(* asked for its four candidates in order; then come the user's files.     *)
(* The search is a walk over these places, one at a time; a place that     *)
(* holds no usable configuration is passed over.                           *)
(*                                                                         *)
(* State                                                                   *)
(*   disk    what every place holds                                        *)
(*   start   number of the directory the search starts in (1 is deepest)   *)
(*   at      the place that is looked at next                              *)
(*   used    the place found, 0 while searching or when there is none      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Levels,    \* number of directories
          MaxFull,   \* at most so many places hold something
          MinFull,
          Contents,
          Starts,
          Defects

VARIABLES phase, disk, start, at, used
vars == <<phase, disk, start, at, used>>

Slots == <<"dottombi", "tombi", "dotconfig", "pyproject">>
Users == <<"xdg", "home">>
\* every place in the order of its priority, the deepest directory first
N == 4 * Levels + 2
Place(i) == IF i <= 4 * Levels
            THEN [level |-> ((i - 1) \div 4) + 1, slot |-> Slots[((i - 1) % 4) + 1]]
            ELSE [level |-> 0, slot |-> Users[i - 4 * Levels]]
Here(i) == i > 4 * Levels \/ Place(i).level >= start

\* valid: a configuration; broken: no TOML; badkey: an unknown key; badtype: a
\* value of another type; dir: a directory of this name; notool: TOML without
\* [tool.tombi] (for the others: an empty file, which is a configuration);
\* broken2: a valid [tool.tombi] and after it no TOML
Allowed(i, c) == c \in {"notool", "othertool"} => Place(i).slot = "pyproject"
Usable(c) == c \in {"valid", "empty"}

Init == /\ phase = 1 /\ disk = [i \in 1..N |-> "absent"]
        /\ start \in Starts /\ at = 0 /\ used = 0
\* put the places together, one after the other
Count == Cardinality({i \in 1..N : disk[i] # "absent"})
Fill == /\ phase \in 1..N
        /\ phase' = phase + 1
        /\ \E c \in Contents \cup {"absent"} :
              /\ Allowed(phase, c)
              /\ c # "absent" => Count < MaxFull
              /\ c = "absent" => Count + (N - phase) >= MinFull
              /\ disk' = [disk EXCEPT ![phase] = c]
        /\ UNCHANGED <<start, at, used>>
Go == /\ phase = N + 1 /\ phase' = N + 2
      /\ at' = 1
      /\ UNCHANGED <<disk, start, used>>
Searching == phase = N + 2 /\ used = 0 /\ at <= N
Look == /\ Searching
        /\ IF Here(at) /\ Usable(disk[at])
           THEN used' = at /\ at' = at
           ELSE /\ used' = 0
                \* fault: a file that cannot be used ends the search
                /\ at' = IF "stop" \in Defects /\ Here(at) /\ disk[at] \in {"broken", "badkey"}
                         THEN N + 1 ELSE at + 1
        /\ UNCHANGED <<phase, disk, start>>
Next == Fill \/ Go \/ Look
Spec == Init /\ [][Next]_vars

Done == phase = N + 2 /\ (used # 0 \/ at > N)
(* ------------------------------ properties ------------------------------ *)
Candidates == {i \in 1..N : Here(i) /\ Usable(disk[i])}
Nearer(i, j) ==
    LET p == Place(i) q == Place(j)
        rank(l) == IF l = 0 THEN Levels + 1 ELSE l
        slot(s) == CHOOSE k \in 1..6 : (Slots \o Users)[k] = s
    IN rank(p.level) < rank(q.level) \/ (p.level = q.level /\ slot(p.slot) < slot(q.slot))
\* a usable file is used if there is one, and no nearer one exists
Nearest == Done => /\ (used = 0) = (Candidates = {})
                   /\ used # 0 => used \in Candidates /\ \A j \in Candidates : ~Nearer(j, used)
\* files in directories below the start have no influence
TypeOK == used \in 0..N
Emit == ~Done \/ PrintT("@@" \o ToJson([disk |-> disk, levels |-> Levels, start |-> start, used |-> used]))
=============================================================================
