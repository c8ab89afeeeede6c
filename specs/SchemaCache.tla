---------------------------- MODULE SchemaCache ----------------------------
(***************************************************************************)
(* Schemas and catalogs from the network, the cache on disk and the memory  *)
(* of a process.                                                            *)
(*                                                                          *)
(* State                                                                    *)
(*   server  per URL: the version published there, 0 is not JSON            *)
(*   up      the network works                                              *)
(*   disk    per URL: the cache entry [v, age, stamp]; v = 0 is torn or not *)
(*           JSON, v = -1 no entry; stamp changes with every write          *)
(*   opts    options of the running process                                 *)
(*   mem     per URL: what the process has in memory and the stamp of the   *)
(*           entry then; v = -1 nothing                                     *)
(*   asked   requests to the network so far                                 *)
(*   got     result of the last load: a version, 0 an error, -1 nothing     *)
(*   first   options of the first process                                   *)
(*   hist    the history                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Urls, Options, Ttl, MaxOps, Kinds, Defects

VARIABLES kind, server, up, disk, opts, mem, asked, got, hist, clock, first
vars == <<kind, server, up, disk, opts, mem, asked, got, hist, clock, first>>

None == [v |-> -1, age |-> 0, stamp |-> 0]
Gone == [v |-> -1, stamp |-> 0]
NoCache == opts \in {"nocache", "offnocache"}
Offline == opts \in {"offline", "offnocache"}
Eternal == opts = "eternal"

Init ==
  /\ kind \in Kinds
  /\ server = [u \in Urls |-> 1]
  /\ up = TRUE
  /\ disk = [u \in Urls |-> None]
  /\ opts \in Options
  /\ mem = [u \in Urls |-> Gone]
  /\ asked = 0 /\ got = -1 /\ clock = 1
  /\ hist = <<>> /\ first = opts

Last == hist[Len(hist)]
More == Len(hist) < MaxOps
Note(op) == hist' = Append(hist, op) /\ UNCHANGED first
LastOp == IF hist = <<>> THEN "none" ELSE Last.op
Idle == UNCHANGED got

\* the entry of u as its reader sees it; faulty: one entry for all
Entry(u) == IF "shared" \in Defects
            THEN LET w == CHOOSE w \in Urls : \A x \in Urls : disk[w].stamp >= disk[x].stamp IN disk[w]
            ELSE disk[u]
Fresh(u) == Entry(u).v > 0 /\ (Eternal \/ Entry(u).age <= Ttl \/ "no_expiry" \in Defects)
Copy(u) == Entry(u).v > 0

\* what a process with no memory of u reads: <<result, asks the network>>
Read(u) ==
  CASE ~NoCache /\ Fresh(u)            -> <<Entry(u).v, FALSE>>
    [] Offline                         -> <<IF ~NoCache /\ Copy(u) THEN Entry(u).v ELSE -1, FALSE>>
    [] up                              -> <<server[u], TRUE>>
    [] ~up /\ ~NoCache /\ Copy(u)      -> <<Entry(u).v, TRUE>>
    [] OTHER                           -> <<0, TRUE>>
Remembered(u) == kind = "schema" /\ mem[u].v >= 0 /\ mem[u].stamp = disk[u].stamp

Load(u) ==
  \* a failed load may be tried again or not
  /\ ~(kind = "schema" /\ mem[u].v = 0)
  /\ IF Remembered(u)
     THEN /\ got' = mem[u].v
          /\ UNCHANGED <<disk, mem, asked, clock>>
          /\ Note([op |-> "load", url |-> u, got |-> mem[u].v, asked |-> asked])
     ELSE LET r == Read(u)
              saves == r[2] /\ up IN
          /\ got' = r[1]
          /\ asked' = IF r[2] THEN asked + 1 ELSE asked
          /\ clock' = IF saves THEN clock + 1 ELSE clock
          /\ disk' = IF saves THEN [disk EXCEPT ![u] = [v |-> r[1], age |-> 0, stamp |-> clock]] ELSE disk
          /\ mem' = IF kind = "schema" /\ r[1] >= 0 THEN [mem EXCEPT ![u] = [v |-> r[1], stamp |-> disk'[u].stamp]]
                    ELSE mem
          /\ Note([op |-> "load", url |-> u, got |-> r[1], asked |-> asked'])
  /\ UNCHANGED <<kind, server, up, opts>>

\* another process saves a new copy
Other(u) ==
  /\ up /\ server[u] > 0 /\ LastOp # "other"
  /\ disk' = [disk EXCEPT ![u] = [v |-> server[u], age |-> 0, stamp |-> clock]]
  /\ clock' = clock + 1
  /\ Note([op |-> "other", url |-> u])
  /\ Idle /\ UNCHANGED <<kind, server, up, opts, mem, asked>>

\* a process dies while it writes the entry
Tear(u) ==
  /\ disk[u].v > 0
  /\ disk' = [disk EXCEPT ![u].v = 0, ![u].stamp = clock]
  /\ clock' = clock + 1
  /\ Note([op |-> "tear", url |-> u])
  /\ Idle /\ UNCHANGED <<kind, server, up, opts, mem, asked>>

Publish(u, bad) ==
  /\ Cardinality({i \in DOMAIN hist : hist[i].op = "publish"}) < 3
  /\ \E i \in DOMAIN hist : hist[i].op \in {"load", "other"}   \* before that it is all the same
  /\ server' = [server EXCEPT ![u] = IF bad THEN 0 ELSE Len(hist) + 2]
  /\ Note([op |-> "publish", url |-> u, v |-> server'[u]])
  /\ Idle /\ UNCHANGED <<kind, up, disk, opts, mem, asked, clock>>

Toggle ==
  /\ LastOp # "toggle"
  /\ up' = ~up
  /\ Note([op |-> "toggle"])
  /\ Idle /\ UNCHANGED <<kind, server, disk, opts, mem, asked, clock>>

\* the process ends; d days later one with other options starts
Restart(o, d) ==
  /\ LastOp \notin {"restart", "none"}
  /\ opts' = o
  /\ mem' = [u \in Urls |-> Gone]
  /\ disk' = [u \in Urls |-> [disk[u] EXCEPT !.age = IF @ > Ttl THEN @ ELSE @ + d]]
  /\ Note([op |-> "restart", opts |-> o, days |-> d])
  /\ Idle /\ UNCHANGED <<kind, server, up, asked, clock>>

\* the cache is emptied and what is in memory forgotten
Refresh ==
  /\ kind = "schema" /\ LastOp = "load"
  /\ disk' = [u \in Urls |-> None]
  /\ mem' = [u \in Urls |-> Gone]
  /\ Note([op |-> "refresh"])
  /\ Idle /\ UNCHANGED <<kind, server, up, opts, asked, clock>>

Next == More /\
  \/ \E u \in Urls : Load(u) \/ Other(u) \/ Tear(u) \/ \E b \in BOOLEAN : Publish(u, b)
  \/ Toggle
  \/ \E o \in Options, d \in {0, 1, Ttl + 1} : Restart(o, d)
  \/ Refresh
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
TypeOK == /\ \A u \in Urls : disk[u].v >= -1 /\ disk[u].age \in 0..(Ttl + 2 * Ttl + 2)
          /\ got >= -1
Published(u) == {1} \cup {hist[i].v : i \in {j \in DOMAIN hist : hist[j].op = "publish" /\ hist[j].url = u}}
\* a load gives what was once published at that very URL
Authentic == (LastOp = "load" /\ Last.got > 0) => Last.got \in Published(Last.url)
Loads == hist' # hist /\ hist'[Len(hist')].op = "load"
U == hist'[Len(hist')].url
OfflineIsSilent == [][Offline => asked' = asked]_vars
FreshIsSilent == [][(Loads /\ ~NoCache /\ disk[U].v > 0 /\ (Eternal \/ disk[U].age <= Ttl)) => asked' = asked]_vars
StaleIsAskedFor == [][(Loads /\ ~Offline /\ ~Eternal /\ disk[U].age > Ttl /\ mem[U].v = -1) => asked' = asked + 1]_vars
NoCacheAsks == [][(Loads /\ opts = "nocache" /\ mem[U].v = -1) => asked' = asked + 1]_vars
\* without a network an old copy is better than nothing
Survives == [][(Loads /\ ~up /\ ~NoCache /\ disk[U].v > 0) => got' > 0]_vars

(* ------------------------------- vectors ------------------------------- *)
Emit == (LastOp = "load" /\ Cardinality({i \in DOMAIN hist : hist[i].op = "load"}) > 1) =>
          PrintT("@@" \o ToJson([kind |-> kind, ops |-> hist, opts |-> first, ttl |-> Ttl]))
=============================================================================
