---------------------------- MODULE SchemaChoice ----------------------------
(***************************************************************************)
(* Which schema, TOML version and strictness are in force for a document.   *)
(*                                                                          *)
(* State                                                                    *)
(*   phase    what is being set up: "entries", "settings" (of the entry     *)
(*            just made), "catalog", "path", "schema", "strict", "version"  *)
(*            (of the document), "done"                                     *)
(*   entries  the [[schemas]] entries of the configuration, in order:       *)
(*            [inc, exc, root, sch, strict, ver]                            *)
(*   catalog  the entries of its catalogs: [inc, sch]                       *)
(*   global   [enabled, strict, ver] of the configuration                   *)
(*   xver     per schema: its x-tombi-toml-version                          *)
(*   doc      [path, sch, strict, ver]: where the document is and what its  *)
(*            own directives say                                            *)
(*                                                                          *)
(* A setting that is not given is "-".  A schema that cannot be loaded is   *)
(* "gone".  The root of an entry is "" (the whole document) or "sub" (what  *)
(* stands below that key).                                                  *)
(*                                                                          *)
(* Where the documentation leaves several readings, the result is a set.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Schemas, Patterns, Paths, Versions, Stricts, Roots, MaxEntries, MaxCatalog,
          Excludes, Switches, Defects

VARIABLES phase, entries, catalog, global, xver, doc
vars == <<phase, entries, catalog, global, xver, doc>>

Opt(S) == {"-"} \cup S
NoEntry == [inc |-> "-", exc |-> "-", root |-> "", sch |-> "-", strict |-> "-", ver |-> "-"]

Init ==
  /\ phase = "entries"
  /\ entries = <<>> /\ catalog = <<>>
  /\ global = [enabled |-> "-", strict |-> "-", ver |-> "-"]
  /\ xver = [s \in Schemas |-> "-"]
  /\ doc = [path |-> "-", sch |-> "-", strict |-> "-", ver |-> "-"]

Entry == /\ phase = "entries" /\ Len(entries) < MaxEntries
         /\ \E i \in Patterns, x \in Opt(Excludes), r \in Roots, s \in Schemas \cup {"gone"} :
              entries' = Append(entries, [NoEntry EXCEPT !.inc = i, !.exc = x, !.root = r, !.sch = s])
         /\ phase' = "settings"
         /\ UNCHANGED <<catalog, global, xver, doc>>
\* the version is that of a document: an entry for a part of one has none
Settings == /\ phase = "settings"
            /\ LET n == Len(entries) IN
               \E t \in Opt(Stricts), v \in IF entries[n].root = "" THEN Opt(Versions) ELSE {"-"} :
                 entries' = [entries EXCEPT ![n].strict = t, ![n].ver = v]
            /\ phase' = "entries"
            /\ UNCHANGED <<catalog, global, xver, doc>>
Global == /\ phase = "entries"
          /\ \E e \in Opt(Switches), t \in Opt(Stricts), v \in Opt(Versions) :
               global' = [enabled |-> e, strict |-> t, ver |-> v]
          /\ phase' = "catalog"
          /\ UNCHANGED <<entries, catalog, xver, doc>>
Catalog == /\ phase = "catalog" /\ Len(catalog) < MaxCatalog
           /\ \E i \in Patterns, s \in Schemas \cup {"gone"} : catalog' = Append(catalog, [inc |-> i, sch |-> s])
           /\ UNCHANGED <<phase, entries, global, xver, doc>>
Publish == /\ phase = "catalog"
           /\ xver' \in [Schemas -> Opt(Versions)]
           /\ phase' = "path"
           /\ UNCHANGED <<entries, catalog, global, doc>>
Document(f, S, now, next) ==
  /\ phase = now
  /\ \E x \in S : doc' = [doc EXCEPT ![f] = x]
  /\ phase' = next
  /\ UNCHANGED <<entries, catalog, global, xver>>
Next == \/ Entry \/ Settings \/ Global \/ Catalog \/ Publish
        \/ Document("path", Paths, "path", "schema")
        \/ Document("sch", Opt(Schemas), "schema", "strict")
        \/ Document("strict", Opt(Stricts), "strict", "version")
        \/ Document("ver", Opt(Versions), "version", "done")
Spec == Init /\ [][Next]_vars

(* ------------------------------ the choice ----------------------------- *)
\* a pattern without * matches at any depth
Covers(pattern, path) ==
  CASE pattern = "x.toml"     -> TRUE
    [] pattern = "sub/x.toml" -> path = "sub/x.toml"
    [] pattern = "sub/*.toml" -> path = "sub/x.toml"
    [] pattern = "**/x.toml"  -> TRUE
    [] pattern = "y.toml"     -> FALSE
    [] OTHER                  -> FALSE
Matches(e, d) == /\ Covers(e.inc, d.path)
                 /\ e.exc # "-" => ~Covers(e.exc, d.path)
Catalogued(c) == [NoEntry EXCEPT !.inc = c.inc, !.sch = c.sch]
All == IF global.enabled = "false" THEN <<>>
       ELSE LET own == entries IN
            IF "catalog_first" \in Defects
            THEN [i \in 1..Len(catalog) |-> Catalogued(catalog[i])] \o own
            ELSE own \o [i \in 1..Len(catalog) |-> Catalogued(catalog[i])]

\* the entries that count for the document, in order
Usable == SelectSeq(All, LAMBDA e : Matches(e, doc) /\ e.sch # "gone")
First(r) == LET s == SelectSeq(Usable, LAMBDA e : e.root = r) IN IF s = <<>> THEN NoEntry ELSE s[1]
RootEntry == First("")
SubEntry == First("sub")

RootSchema == IF doc.sch # "-" THEN doc.sch ELSE RootEntry.sch
SubSchema == SubEntry.sch

Or(a, b) == IF a # "-" THEN a ELSE b
VersBy(S) == {v \in {e.ver : e \in S} : v # "-"}
EntryVersions ==
  LET used == {e \in {RootEntry, SubEntry} : e.sch # "-"}
      all == {Usable[i] : i \in 1..Len(Usable)} IN
  \* all agree, or it is open which of them speaks
  IF VersBy(used) = {} THEN IF VersBy(all) = {} THEN {} ELSE VersBy(all) \cup {"-"}
  ELSE VersBy(all)
Version ==
  LET x == IF RootSchema = "-" THEN "-" ELSE xver[RootSchema]
      lower == Or(x, Or(global.ver, "v1.0.0")) IN
  IF doc.ver # "-" THEN {doc.ver}
  ELSE IF EntryVersions = {} THEN {lower}
  ELSE {Or(v, lower) : v \in EntryVersions}

Default == Or(global.strict, "true")
\* whether the setting of an entry counts whose schema another one replaces is open
RootStrict ==
  IF doc.strict # "-" THEN {doc.strict}
  ELSE IF doc.sch = "-" THEN {Or(RootEntry.strict, Default)}
  ELSE {Or(RootEntry.strict, Default), Default}
SubStrict ==
  IF doc.strict # "-" THEN {doc.strict}
  ELSE IF SubEntry.strict # "-" THEN {SubEntry.strict}
  ELSE IF "sub_skips_root" \in Defects THEN {Default}
  ELSE RootStrict

\* the root's schema is met again below, under the same explicit strictness
Again == /\ RootSchema # "-" /\ RootSchema = SubSchema /\ RootEntry.strict # "-"
         /\ Or(SubEntry.strict, RootEntry.strict) = RootEntry.strict

(* ------------------------------ properties ----------------------------- *)
Done == phase = "done"
TypeOK == Done => Version # {} /\ RootStrict # {} /\ SubStrict # {}
\* stated on its own terms: who wins against whom
DirectiveWins == Done =>
  /\ doc.sch # "-" => RootSchema = doc.sch
  /\ doc.ver # "-" => Version = {doc.ver}
  /\ doc.strict # "-" => RootStrict = {doc.strict} /\ SubStrict = {doc.strict}
ConfigBeatsCatalog == (Done /\ doc.sch = "-" /\ global.enabled # "false") =>
  \A i \in DOMAIN entries :
    (Matches(entries[i], doc) /\ entries[i].sch # "gone" /\ entries[i].root = "")
      => \E j \in 1..i : entries[j].sch = RootSchema
\* nothing that does not match can be seen
NoneMatches == /\ \A i \in DOMAIN entries : ~Matches(entries[i], doc)
               /\ \A i \in DOMAIN catalog : ~Covers(catalog[i].inc, doc.path)
Irrelevant == (Done /\ NoneMatches) => (RootSchema = doc.sch /\ SubSchema = "-")
Layered == Done =>
  /\ (doc.strict = "-" /\ SubEntry.strict = "-" /\ RootEntry.strict # "-" /\ doc.sch = "-") => SubStrict = {RootEntry.strict}
  /\ (doc.strict = "-" /\ RootEntry.strict = "-") => RootStrict = {Or(global.strict, "true")}

(* ------------------------------- vectors ------------------------------- *)
Emit == Done => PrintT("@@" \o ToJson([entries |-> entries, catalog |-> catalog, global |-> global, xver |-> xver,
          doc |-> doc, root |-> RootSchema, sub |-> SubSchema, versions |-> Version,
          rootstrict |-> RootStrict, substrict |-> SubStrict, again |-> Again]))
=============================================================================
