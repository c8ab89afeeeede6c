------------------------------ MODULE LspSync ------------------------------
(***************************************************************************)
(* The language server's document store, its diagnostics cache and what the *)
(* editor shows, under any history of editor messages and any order in      *)
(* which the schema downloads that handlers wait for are answered.          *)
(*                                                                          *)
(* A handler runs in atomic segments between the awaits at which it can     *)
(* really be suspended: the download of the schema a text names ("A", which *)
(* decides the TOML version) and of a schema that one refers to ("B", only  *)
(* needed for linting), and the opening of a document that a request waits  *)
(* for.  tower-lsp polls a handler first in arrival order and then whenever *)
(* it can continue.                                                         *)
(*                                                                          *)
(* State                                                                    *)
(*   client   per document: what the editor has (open?, version, text)      *)
(*   disk     per document: the file's text, or "none"                      *)
(*   doc      per document: the server's source (present, version 0 when it *)
(*            is not open, text, whether the TOML version is that of the    *)
(*            text)                                                         *)
(*   cache    per document: cached diagnostics (version, text they are of)  *)
(*   opening  per document: the open handler requests must wait for, or 0   *)
(*   track    documents whose files have workspace diagnostics: a deletion  *)
(*            ends that, a creation the server is told about begins it      *)
(*   woken    open handlers whose waiters have been woken                   *)
(*   tasks    handlers that have not finished, in arrival order             *)
(*   gates    downloads that have been answered                             *)
(*   shown    per document: the diagnostics last published                  *)
(*   answers  replies to requests                                           *)
(*   hist     the environment's steps so far, with the editor's state after *)
(*                                                                          *)
(* Defects names ways to go wrong that the unrepaired code had; with        *)
(* Defects = {} the properties hold, with any single one TLC refutes them.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Uris, Texts, GateA, GateB, Unformatted, Unparsable,
          Targets,      \* documents with workspace diagnostics
          InitText,     \* text of every file at the start, or "none"
          Push,         \* TRUE: diagnostics are published; FALSE: they are requested
          Ops, MaxSteps, Defects, Urgent, MaxFlight

VARIABLES client, disk, doc, cache, track, opening, woken, tasks, gates, shown, answers, hist, nid
vars == <<client, disk, doc, cache, track, opening, woken, tasks, gates, shown, answers, hist, nid>>

D(x) == x \in Defects
NoDoc == [in |-> FALSE, ver |-> 0, text |-> "none", tv |-> TRUE]
NoCache == [in |-> FALSE, ver |-> 0, text |-> "none"]
Nothing == [ver |-> 0, text |-> "none"]
Closed == [open |-> FALSE, ver |-> 0, text |-> "none"]

NeedsA(t) == t \in GateA
Gate(k, t) == <<k, t>>
AOpen(t) == t \notin GateA \/ Gate("A", t) \in gates
BOpen(t) == t \notin GateB \/ Gate("B", t) \in gates

Init == /\ client = [u \in Uris |-> Closed]
        /\ disk = [u \in Uris |-> InitText]
        /\ doc = [u \in Uris |-> IF u \in Targets /\ InitText # "none"
                               THEN [in |-> TRUE, ver |-> 0, text |-> InitText, tv |-> TRUE] ELSE NoDoc]
        /\ cache = [u \in Uris |-> NoCache]
        /\ opening = [u \in Uris |-> 0]
        /\ woken = {}
        /\ track = Targets
        /\ tasks = <<>>
        /\ gates = {}
        /\ shown = [u \in Uris |-> IF Push /\ u \in Targets THEN [ver |-> 0, text |-> InitText] ELSE Nothing]
        /\ answers = <<>>
        /\ hist = <<>>
        /\ nid = 1

(* ------------------------------- tasks --------------------------------- *)
Task(k, u, ver, text) ==
  [id |-> nid, k |-> k, u |-> u, ver |-> ver, text |-> text, pc |-> "start", need |-> FALSE,
   snapVer |-> 0, snapText |-> "none", wait |-> 0]

Drop(i) == SubSeq(tasks, 1, i - 1) \o SubSeq(tasks, i + 1, Len(tasks))
Done(i) == tasks' = Drop(i)
Go(i, t) == tasks' = [tasks EXCEPT ![i] = t]

Locked == D("save_lock") /\ \E i \in 1..Len(tasks) : tasks[i].k = "save" /\ tasks[i].pc = "tv"

(* is the task runnable now? *)
Runnable(t) ==
  CASE t.pc = "start" -> t.k \in {"pull", "inlay", "fmt"} \/ ~Locked
    [] t.pc = "open"  -> t.wait \in woken
    [] t.pc = "tv"    -> AOpen(t.text)
    [] t.pc = "push"  -> TRUE
    [] t.pc = "lint"  -> AOpen(t.snapText) /\ BOpen(t.snapText)

(* set the server's source; tv: does the TOML version belong to the text? *)
Put(u, ver, text, tv) ==
  doc' = [doc EXCEPT ![u] = [in |-> TRUE, ver |-> ver, text |-> text, tv |-> tv]]
Uncache(u) == cache' = [cache EXCEPT ![u] = NoCache]

(* ------------------- first segments of the handlers -------------------- *)
StartOpen(i, t) ==
  /\ opening' = [opening EXCEPT ![t.u] = t.id]
  /\ IF D("late_insert") THEN UNCHANGED <<doc, cache>>
     ELSE Put(t.u, t.ver, t.text, ~NeedsA(t.text)) /\ Uncache(t.u)
  /\ Go(i, [t EXCEPT !.pc = "tv", !.need = TRUE])
  /\ UNCHANGED <<shown, answers>>

StartChange(i, t) ==
  IF ~doc[t.u].in
  THEN Done(i) /\ UNCHANGED <<doc, cache, opening, shown, answers>>
  ELSE /\ Put(t.u, t.ver, t.text, ~NeedsA(t.text))
       /\ Uncache(t.u)
       /\ Go(i, [t EXCEPT !.pc = "tv", !.need = doc[t.u].ver < t.ver])
       /\ UNCHANGED <<opening, shown, answers>>

StartSave(i, t) ==      \* the message carries the text
  IF ~doc[t.u].in
  THEN Done(i) /\ UNCHANGED <<doc, cache, opening, shown, answers>>
  ELSE /\ IF D("save_lock") THEN UNCHANGED <<doc, cache>>
          ELSE Put(t.u, doc[t.u].ver, t.text, ~NeedsA(t.text)) /\ Uncache(t.u)
       /\ Go(i, [t EXCEPT !.pc = "tv", !.need = doc[t.u].text # t.text])
       /\ UNCHANGED <<opening, shown, answers>>

StartSaved(i, t) ==     \* the message does not carry the text
  /\ Uncache(t.u)
  /\ Go(i, [t EXCEPT !.pc = "push", !.need = TRUE])
  /\ UNCHANGED <<doc, opening, shown, answers>>

StartClose(i, t) ==     \* only the file counts from now on
  /\ doc' = IF D("close_keeps") THEN [doc EXCEPT ![t.u].ver = 0] ELSE [doc EXCEPT ![t.u] = NoDoc]
  /\ Uncache(t.u)
  /\ IF t.u \in track /\ disk[t.u] # "none" /\ ~D("close_keeps")
     THEN Go(i, [t EXCEPT !.pc = "tv", !.text = disk[t.u], !.need = TRUE]) /\ UNCHANGED shown
     ELSE /\ Done(i)
          /\ shown' = IF t.u \in track /\ D("close_keeps") THEN shown
                      ELSE [shown EXCEPT ![t.u] = Nothing]
  /\ UNCHANGED <<opening, answers>>

StartDelete(i, t) ==
  /\ IF doc[t.u].ver # 0 /\ ~D("watch_removes")
     THEN UNCHANGED <<doc, shown>>
     ELSE /\ doc' = [doc EXCEPT ![t.u] = NoDoc]
          /\ shown' = IF Push THEN [shown EXCEPT ![t.u] = Nothing] ELSE shown
  /\ Uncache(t.u)
  /\ Done(i)
  /\ UNCHANGED <<opening, answers>>

StartWatch(i, t) ==     \* reads the file now, applies it once the version is known
  IF disk[t.u] = "none"
  THEN Done(i) /\ UNCHANGED <<doc, cache, opening, shown, answers>>
  ELSE /\ Go(i, [t EXCEPT !.pc = "tv", !.text = disk[t.u], !.need = TRUE])
       /\ UNCHANGED <<doc, cache, opening, shown, answers>>

Answer(t, text) == answers' = Append(answers, [id |-> t.id, k |-> t.k, u |-> t.u, text |-> text])

StartRequest(i, t) ==
  IF opening[t.u] # 0
  THEN Go(i, [t EXCEPT !.pc = "open", !.wait = opening[t.u]])
       /\ UNCHANGED <<doc, cache, opening, shown, answers>>
  ELSE IF t.k = "inlay"
       THEN Done(i) /\ Answer(t, doc[t.u].text) /\ UNCHANGED <<doc, cache, opening, shown>>
       ELSE Go(i, [t EXCEPT !.pc = "push"]) /\ UNCHANGED <<doc, cache, opening, shown, answers>>

StartFormat(i, t) ==
  IF Locked \/ ~doc[t.u].in
  THEN Done(i) /\ Answer(t, "none") /\ UNCHANGED <<doc, cache, opening, shown>>
  ELSE IF doc[t.u].text \in Unparsable
  THEN /\ shown' = [shown EXCEPT ![t.u] = [ver |-> doc[t.u].ver, text |-> doc[t.u].text]]
       /\ Done(i) /\ Answer(t, doc[t.u].text) /\ UNCHANGED <<doc, cache, opening>>
  ELSE IF doc[t.u].text \in Unformatted
  THEN /\ IF D("format_applies") THEN Put(t.u, doc[t.u].ver, "formatted", TRUE)
          ELSE UNCHANGED doc
       /\ Done(i) /\ Answer(t, doc[t.u].text) /\ UNCHANGED <<cache, opening, shown>>
  ELSE /\ IF D("format_clears") \/ ~Push
          THEN Done(i) /\ shown' = [shown EXCEPT ![t.u] = Nothing]
          ELSE Go(i, [t EXCEPT !.pc = "push", !.need = TRUE]) /\ UNCHANGED shown
       /\ Answer(t, doc[t.u].text) /\ UNCHANGED <<doc, cache, opening>>

Start(i, t) ==
  CASE t.k = "open"   -> StartOpen(i, t)
    [] t.k = "change" -> StartChange(i, t)
    [] t.k = "save"   -> StartSave(i, t)
    [] t.k = "saved"  -> StartSaved(i, t)
    [] t.k = "close"  -> StartClose(i, t)
    [] t.k = "delete" -> StartDelete(i, t)
    [] t.k = "watch"  -> StartWatch(i, t)
    [] t.k = "fmt"    -> StartFormat(i, t)
    [] OTHER          -> StartRequest(i, t)

(* --------------------- once the version is known ----------------------- *)
Finish(u, id) == /\ opening' = IF opening[u] = id THEN [opening EXCEPT ![u] = 0] ELSE opening
                 /\ woken' = woken \cup {id}

Resolved(i, t) ==
  LET u == t.u
      same == doc[u].in /\ doc[u].text = t.text /\ (t.k \in {"save", "watch"} \/ doc[u].ver = t.ver)
      current == CASE t.k = "open" /\ D("late_insert") -> TRUE
                   [] t.k = "save" /\ D("save_lock")   -> TRUE
                   [] t.k = "change" /\ D("aba")       -> doc[u].in /\ doc[u].ver = t.ver
                   [] OTHER -> same
      \* is there still something to publish for this message?
      publish == CASE D("late_publish") -> t.need
                   [] t.k = "open"      -> same
                   [] OTHER             -> t.need /\ doc[u].ver # 0
      next == [t EXCEPT !.pc = "push"] IN
  /\ CASE t.k = "open" /\ D("open_token") -> /\ opening' = [opening EXCEPT ![u] = 0]
                                             /\ woken' = woken \cup {opening[u]}
       [] t.k = "open" /\ ~D("open_token") -> Finish(u, t.id)
       [] OTHER -> UNCHANGED <<opening, woken>>
  /\ IF t.k \in {"watch", "close"}
     THEN LET now == IF D("watch_stale") THEN t.text ELSE disk[u] IN
          IF now = "none"
          THEN /\ Done(i) /\ UNCHANGED <<doc, cache>>
               /\ shown' = IF t.k = "close" /\ doc[u].ver = 0
                           THEN [shown EXCEPT ![u] = Nothing] ELSE shown
          ELSE IF now # t.text      \* changed meanwhile: start over
          THEN Go(i, [t EXCEPT !.text = now]) /\ UNCHANGED <<doc, cache>>
          ELSE /\ IF doc[u].ver # 0 THEN UNCHANGED doc ELSE Put(u, 0, t.text, TRUE)
               /\ Uncache(u)
               /\ IF Push THEN Go(i, next) ELSE Done(i)
     ELSE /\ IF current
             THEN Put(u, IF t.k = "save" THEN doc[u].ver ELSE t.ver, t.text, TRUE) /\ Uncache(u)
             ELSE UNCHANGED <<doc, cache>>
          /\ IF Push /\ publish /\ (t.k # "change" \/ current) THEN Go(i, next) ELSE Done(i)
  /\ ~(t.k \in {"watch", "close"} /\ disk[u] = "none") \/ D("watch_stale") => UNCHANGED shown
  /\ UNCHANGED answers

(* ------------------------- linting, publishing ------------------------- *)
Publish(t, ver, text) ==
  IF t.k = "pull" THEN Answer(t, text) /\ UNCHANGED shown
  ELSE shown' = [shown EXCEPT ![t.u] = [ver |-> ver, text |-> text]] /\ UNCHANGED answers

Lint(i, t) ==
  LET u == t.u IN
  /\ UNCHANGED <<doc, cache, opening>>
  /\ IF t.k # "pull" /\ ~Push
     THEN Done(i) /\ UNCHANGED <<shown, answers>>
     ELSE IF cache[u].in /\ cache[u].ver = doc[u].ver
     THEN Done(i) /\ Publish(t, cache[u].ver, cache[u].text)
     ELSE IF ~doc[u].in \/ Locked
     THEN Done(i) /\ (IF t.k = "pull" THEN Answer(t, "none") ELSE UNCHANGED answers) /\ UNCHANGED shown
     ELSE Go(i, [t EXCEPT !.pc = "lint", !.snapVer = doc[u].ver, !.snapText = doc[u].text])
          /\ UNCHANGED <<shown, answers>>

Linted(i, t) ==
  LET u == t.u
      current == doc[u].in /\ doc[u].ver = t.snapVer /\ (D("aba") \/ doc[u].text = t.snapText) IN
  /\ cache' = IF current THEN [cache EXCEPT ![u] = [in |-> TRUE, ver |-> t.snapVer, text |-> t.snapText]]
              ELSE cache
  /\ IF t.k = "pull" \/ current \/ D("late_publish")
     THEN Publish(t, t.snapVer, t.snapText) ELSE UNCHANGED <<shown, answers>>
  /\ Done(i)
  /\ UNCHANGED <<doc, opening>>

Opened(i, t) ==
  Go(i, [t EXCEPT !.pc = "start", !.wait = 0]) /\ UNCHANGED <<doc, cache, opening, woken, shown, answers>>

Step(i) ==
  LET t == tasks[i] IN
  /\ CASE t.pc = "start" -> Start(i, t)
       [] t.pc = "open"  -> Opened(i, t)
       [] t.pc = "tv"    -> Resolved(i, t)
       [] t.pc = "push"  -> Lint(i, t)
       [] t.pc = "lint"  -> Linted(i, t)
  /\ track' = IF t.k = "delete" /\ t.pc = "start" THEN track \ {t.u}
              ELSE IF t.k = "watch" /\ t.ver = 1 /\ t.pc = "tv" /\ disk[t.u] # "none" THEN track \cup ({t.u} \cap Targets)
              ELSE track
  /\ UNCHANGED <<client, disk, gates, hist, nid>>
  /\ tasks[i].pc \notin {"tv", "open"} => UNCHANGED woken

CanRun(i) == Runnable(tasks[i])
             /\ (tasks[i].pc = "start" => ~\E j \in 1..(i-1) : tasks[j].pc = "start")
Idle == ~\E i \in 1..Len(tasks) : CanRun(i)

Server == \E i \in 1..Len(tasks) :
            /\ CanRun(i)
            /\ Urgent => \A j \in 1..(i-1) : ~CanRun(j)
            /\ Step(i)

(* ------------------------------ environment ---------------------------- *)
Post(op, u, text, c, d, k, ver, withText) ==
  /\ client' = c
  /\ disk' = d
  /\ tasks' = Append(tasks, Task(k, u, ver, text))
  /\ nid' = nid + 1
  /\ hist' = Append(hist, [op |-> op, u |-> u, text |-> text, ver |-> ver, id |-> nid,
                           editor |-> c, file |-> d[u]])
  /\ UNCHANGED <<doc, cache, track, opening, woken, gates, shown, answers>>

\* 1 if the server was last told that there is no such file
Created(u) ==
  LET told == {i \in 1..Len(hist) : hist[i].op \in {"watch", "delete"} /\ hist[i].u = u} IN
  IF told = {} THEN (IF InitText = "none" THEN 1 ELSE 0)
  ELSE LET last == CHOOSE i \in told : \A j \in told : j <= i IN
       IF hist[last].op = "delete" THEN 1 ELSE 0

InFlight(k) == Cardinality({i \in 1..Len(tasks) : tasks[i].pc # "start"}) < MaxFlight

Send ==
  /\ Len(hist) < MaxSteps
  /\ InFlight("any")
  /\ Urgent => Idle
  /\ \E u \in Uris :
       LET c == client[u] IN
       \/ /\ "open" \in Ops /\ ~c.open
          /\ \E t \in Texts :
               Post("open", u, t, [client EXCEPT ![u] = [open |-> TRUE, ver |-> 1, text |-> t]], disk, "open", 1, TRUE)
       \/ /\ "change" \in Ops /\ c.open
          /\ \E t \in Texts \ {c.text} :
               Post("change", u, t, [client EXCEPT ![u] = [open |-> TRUE, ver |-> c.ver + 1, text |-> t]],
                    disk, "change", c.ver + 1, TRUE)
       \/ /\ "save" \in Ops /\ c.open
          /\ Post("save", u, c.text, client, [disk EXCEPT ![u] = c.text], "save", c.ver, TRUE)
       \/ /\ "saved" \in Ops /\ c.open
          /\ Post("saved", u, c.text, client, [disk EXCEPT ![u] = c.text], "saved", c.ver, FALSE)
       \/ /\ "close" \in Ops /\ c.open
          /\ Post("close", u, "none", [client EXCEPT ![u] = Closed], disk, "close", 0, FALSE)
       \/ /\ "pull" \in Ops /\ c.open
          /\ Post("pull", u, "none", client, disk, "pull", 0, FALSE)
       \/ /\ "inlay" \in Ops /\ c.open
          /\ Post("inlay", u, "none", client, disk, "inlay", 0, FALSE)
       \/ /\ "fmt" \in Ops /\ c.open
          /\ Post("fmt", u, "none", client, disk, "fmt", 0, FALSE)
       \/ /\ "delete" \in Ops /\ disk[u] # "none"
          /\ Post("delete", u, "none", client, [disk EXCEPT ![u] = "none"], "delete", 0, FALSE)
       \/ /\ "watch" \in Ops
          /\ \E t \in Texts \ {disk[u]} :
               Post("watch", u, t, client, [disk EXCEPT ![u] = t], "watch", Created(u), FALSE)

(* a download is answered; only ones somebody may wait for *)
Gates == {Gate("A", t) : t \in GateA} \cup {Gate("B", t) : t \in GateB}
Used(t) == \E i \in 1..Len(hist) : hist[i].text = t
Release ==
  /\ Urgent => Idle
  /\ Len(hist) < MaxSteps
  /\ tasks # <<>>
  /\ \E g \in Gates \ gates :
       /\ Used(g[2])
       /\ g[1] = "B" => Gate("A", g[2]) \in gates
       /\ gates' = gates \cup {g}
       /\ hist' = Append(hist, [op |-> "release", u |-> g[1], text |-> g[2], ver |-> 0, id |-> 0,
                                editor |-> client, file |-> "none"])
  /\ UNCHANGED <<client, disk, doc, cache, track, opening, woken, tasks, shown, answers, nid>>

(* at the end every download is answered, in some order of the texts *)
Drain ==
  /\ Idle
  /\ Len(hist) = MaxSteps
  /\ Gates \ gates # {}
  /\ gates' = Gates
  /\ UNCHANGED <<client, disk, doc, cache, track, opening, woken, tasks, shown, answers, hist, nid>>

Next == Server \/ Send \/ Release \/ Drain
Spec == Init /\ [][Next]_vars

(* ----------------------------- properties ------------------------------ *)
Settled == tasks = <<>>
NoStart == ~\E i \in 1..Len(tasks) : tasks[i].pc = "start"

\* every message is visible to whatever is handled after it
Mirror == NoStart => \A u \in Uris :
            /\ client[u].open => doc[u].in /\ doc[u].ver = client[u].ver /\ doc[u].text = client[u].text
            /\ ~client[u].open => doc[u].ver = 0

\* requests are answered from a text the editor had when it asked or later
AskedText(id) == LET h == CHOOSE k \in 1..Len(hist) : hist[k].id = id IN h
Answered == \A k \in 1..Len(answers) :
              LET a == answers[k]
                  h == AskedText(a.id) IN
              \/ \E j \in h..Len(hist) : hist[j].editor[a.u].text = a.text /\ hist[j].editor[a.u].open
              \/ \E j \in h..Len(hist) : ~hist[j].editor[a.u].open

\* a published result belongs to the document as it is
PublishedFresh == [][\A u \in Uris : shown'[u] # shown[u] /\ shown'[u] # Nothing /\ NoStart =>
                       shown'[u].text = doc'[u].text /\ shown'[u].ver = doc'[u].ver]_vars

\* once the server is quiet
Quiet == /\ Settled
         /\ Push
         => \A u \in Uris :
              /\ client[u].open => shown[u] = [ver |-> client[u].ver, text |-> client[u].text]
              /\ ~client[u].open => shown[u] = Nothing \/ (shown[u].text = disk[u] /\ shown[u].ver = 0)
              /\ ~client[u].open /\ u \in track => shown[u] = [ver |-> 0, text |-> disk[u]]
QuietVersion == Settled => \A u \in Uris : doc[u].ver # 0 => doc[u].tv

\* whatever is cached for the version the document has is of its text
CacheFresh == \A u \in Uris : cache[u].in /\ doc[u].in /\ cache[u].ver = doc[u].ver => cache[u].text = doc[u].text

\* no handler waits for ever once the downloads are answered
NoneStuck == (Len(hist) = MaxSteps /\ gates = Gates /\ Idle) => Settled

(* ---------------------------- vectors ---------------------------------- *)
Final == Len(hist) = MaxSteps /\ gates = Gates /\ Settled
Emit == Final =>
  PrintT("@@" \o ToJson([hist |-> hist, push |-> Push,
     shown |-> shown, editor |-> client, targets |-> Targets, init |-> InitText]))
=============================================================================
