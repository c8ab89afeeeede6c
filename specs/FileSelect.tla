----------------------------- MODULE FileSelect -----------------------------
(***************************************************************************)
(* Which files `tombi format` and `tombi lint` work on.                    *)
(*                                                                         *)
(* A scenario is put together first (Choose...): the patterns of the       *)
(* configuration, the ignore files, the directory the program is started   *)
(* in and its arguments.  Then the program looks at one argument after the *)
(* other: a file is taken or skipped, a directory or a pattern starts a    *)
(* walk, which visits directory after directory (in any order) and takes   *)
(* the files that pass.  At the end the files are processed, each once.    *)
(*                                                                         *)
(* The walk is checked against a declarative reading of the documentation  *)
(* (Selected): a file is worked on iff some argument selects it.           *)
(*                                                                         *)
(* The tree: project P with a configuration, O a directory beside it.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, GlobMatch

CONSTANTS Includes,   \* values of files.include, "-" for none given
          Excludes,   \* values of files.exclude
          Ignores,    \* names of ignore file setups
          Respects,   \* values of files.respect-ignore-files
          Configs,    \* is there a configuration file in P
          Cwds,       \* directories to start in
          ArgSet,     \* arguments to choose from
          MaxArgs,
          AnyOrder,   \* explore every order of visiting directories
          Defects

VARIABLES phase, cfg, args, argi, todo, walk, found, skipped, failed
vars == <<phase, cfg, args, argi, todo, walk, found, skipped, failed>>

(* -------------------------------- the tree ------------------------------ *)
Dirs == {<<"P">>, <<"O">>, <<"P", "sub">>, <<"P", "sub", "deep">>, <<"P", "sub", "vendor">>,
         <<"P", "vendor">>, <<"P", ".hid">>, <<"P", ".git">>, <<"P", "d.toml">>}
Links == {<<"P", "lnk">>,          \* to O
          <<"P", "lnk.toml">>}     \* to O/x.toml
Plain == {<<"P", "a.toml">>, <<"P", "c.toml">>, <<"P", "b.txt">>, <<"P", "tombi.toml">>,
          <<"P", "sub", "a.toml">>, <<"P", "sub", "c.toml">>, <<"P", "sub", "deep", "a.toml">>,
          <<"P", "sub", "vendor", "a.toml">>, <<"P", "vendor", "a.toml">>,
          <<"P", ".hid", "a.toml">>, <<"P", ".git", "a.toml">>, <<"P", "d.toml", "a.toml">>,
          <<"O", "x.toml">>, <<"O", "a.toml">>}
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Below(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
From(d, p) == SubSeq(p, Len(d) + 1, Len(p))   \* p relative to d
Vcs == {".git"}

(* ------------------------------ ignore files ---------------------------- *)
\* rules: neg, dir (only directories), deep (at any depth), pat
Rule(neg, dir, p) == [neg |-> neg, dir |-> dir, pat |-> p]
Src(kind, at, rules) == [kind |-> kind, at |-> at, rules |-> rules]
Vendor == <<GlobDeep, GlobIn({"vendor"})>>
Setup(n) ==
    CASE n = "none" -> {}
      [] n = "git" -> {Src("git", <<"P">>, <<Rule(FALSE, FALSE, Vendor)>>)}
      [] n = "gitdir" -> {Src("git", <<"P">>, <<Rule(FALSE, TRUE, <<GlobIn({"vendor"})>>)>>)}
      [] n = "gitfile" -> {Src("git", <<"P">>, <<Rule(FALSE, FALSE, <<GlobDeep, GlobIn({"a.toml"})>>),
                                                Rule(TRUE, FALSE, <<GlobIn({"sub"}), GlobIn({"a.toml"})>>)>>)}
      [] n = "gitdirfile" -> {Src("git", <<"P">>, <<Rule(FALSE, TRUE, <<GlobDeep, GlobIn({"a.toml", "deep"})>>)>>)}
      [] n = "nested" -> {Src("git", <<"P">>, <<Rule(FALSE, FALSE, <<GlobDeep, GlobIn({"c.toml"})>>)>>),
                          Src("git", <<"P", "sub">>, <<Rule(TRUE, FALSE, <<GlobDeep, GlobIn({"c.toml"})>>),
                                                       Rule(FALSE, FALSE, <<GlobDeep, GlobIn({"deep"})>>)>>)}
      [] n = "ignore" -> {Src("ignore", <<"P">>, <<Rule(FALSE, FALSE, <<GlobIn({"sub"}), GlobIn({"deep"})>>)>>)}
      [] n = "ignorewins" -> {Src("ignore", <<"P">>, <<Rule(TRUE, FALSE, <<GlobDeep, GlobIn({"a.toml"})>>)>>),
                              Src("git", <<"P">>, <<Rule(FALSE, FALSE, <<GlobDeep, GlobToml>>)>>)}
      [] n = "exclude" -> {Src("exclude", <<"P">>, <<Rule(FALSE, FALSE, <<GlobDeep, GlobIn({"c.toml"})>>)>>)}
      [] n = "hid" -> {Src("git", <<"P">>, <<Rule(FALSE, FALSE, <<GlobIn({".hid"})>>),
                                            Rule(FALSE, FALSE, <<GlobIn({"sub"}), GlobIn({"c.toml"})>>)>>)}

\* the ignore files are files as well (and no TOML)
IgnoreFiles == {Append(s.at, IF s.kind = "git" THEN ".gitignore" ELSE ".ignore") :
                   s \in {t \in Setup(cfg.ignore) : t.kind # "exclude"}}
Files == (IF cfg.config THEN Plain ELSE Plain \ {<<"P", "tombi.toml">>}) \cup IgnoreFiles
Children(d) == {p \in Dirs \cup Links \cup Files : p # <<>> /\ Len(p) > 1 /\ Front(p) = d}

Prio(k) == CASE k = "ignore" -> 3 [] k = "git" -> 2 [] k = "exclude" -> 1
RuleHits(s, i, p, isdir) == /\ Below(s.at, p)
                            /\ s.rules[i].dir => isdir
                            /\ GlobMatches(s.rules[i].pat, From(s.at, p))
Hits(s, p, isdir) == {i \in DOMAIN s.rules : RuleHits(s, i, p, isdir)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the kind that decides is the highest that has a matching rule; within it
\* the nearest file, within that its last matching rule
Ignored(p, isdir) ==
    LET srcs == IF cfg.respect \/ ~cfg.config THEN {s \in Setup(cfg.ignore) : Hits(s, p, isdir) # {}} ELSE {}
        win == CHOOSE s \in srcs : \A t \in srcs : <<Prio(t.kind), Len(t.at)>> = <<Prio(s.kind), Len(s.at)>>
                     \/ Prio(t.kind) < Prio(s.kind)
                     \/ (Prio(t.kind) = Prio(s.kind) /\ Len(t.at) < Len(s.at))
    IN srcs # {} /\ ~win.rules[Max(Hits(win, p, isdir))].neg

(* ------------------------------- patterns ------------------------------- *)
Root == IF cfg.config THEN <<"P">> ELSE cfg.cwd
Include == IF cfg.include = <<"-">> \/ ~cfg.config THEN <<"**/*.toml">> ELSE cfg.include
Exclude == IF cfg.exclude = <<"-">> \/ ~cfg.config THEN <<>> ELSE cfg.exclude
\* the place of a path for the patterns: below the configuration, else below
\* the directory that is walked
Place(d, p) == IF Below(Root, p) /\ (d = Root \/ Below(Root, d)) THEN From(Root, p) ELSE From(d, p)
Passes(include, d, p) ==
    /\ include = <<>> \/ MatchesAny(include, Place(d, p))
    /\ ~MatchesAny(Exclude, Place(d, p))
\* a file that is named is only skipped for its place below the configuration
Skips(p) == Below(Root, p) /\ MatchesAny(Exclude, From(Root, p))

(* --------------------------- declarative reading ------------------------ *)
Reachable(d, p) ==
    /\ Below(d, p)
    /\ Last(d) \notin Vcs
    /\ \A n \in (Len(d) + 1)..Len(p) :
          LET q == SubSeq(p, 1, n)
          IN /\ q \notin Links
             /\ n < Len(p) => Last(q) \notin Vcs /\ q \in Dirs
             /\ ~Ignored(q, q \in Dirs)
SelectsFrom(include, d, p) == Reachable(d, p) /\ Passes(include, d, p)
Target(p) == IF p = <<"P", "lnk.toml">> THEN <<"O", "x.toml">> ELSE p
ArgSelects(a, p) ==
    CASE a.kind = "file" -> Target(a.path) = p /\ ~Skips(p)
      [] a.kind = "dir" -> SelectsFrom(Include, a.path, p)
      [] a.kind = "glob" -> SelectsFrom(<<a.glob>>, Root, p)
      [] a.kind = "missing" -> FALSE
Selected == IF args = <<>>
            THEN {p \in Files : SelectsFrom(Include, Root, p)}
            ELSE {p \in Files : \E i \in DOMAIN args : ArgSelects(args[i], p)}

(* ---------------------------- choosing a scenario ----------------------- *)
None == [include |-> <<"-">>, exclude |-> <<"-">>, ignore |-> "none", respect |-> TRUE,
         config |-> TRUE, cwd |-> <<"P">>]
Init == /\ phase = "include" /\ cfg = None /\ args = <<>> /\ argi = 0
        /\ todo = {} /\ walk = [dir |-> <<>>, include |-> <<>>]
        /\ found = {} /\ skipped = {} /\ failed = 0
Rest == UNCHANGED <<argi, todo, walk, found, skipped, failed>>
Pick(from, to, field, S) ==
    /\ phase = from /\ phase' = to
    /\ \E v \in S : cfg' = [cfg EXCEPT ![field] = v]
    /\ UNCHANGED args /\ Rest
\* a directory named on the command line that is itself ignored: unspecified
Sensible(a) == a.kind = "dir" =>
                 \A n \in 2..Len(a.path) : ~Ignored(SubSeq(a.path, 1, n), TRUE)
ChooseArg == /\ phase = "args" /\ Len(args) < MaxArgs
             /\ \E a \in ArgSet :
                   /\ Sensible(a)
                   /\ a.kind = "file" => a.path \in Files \cup Links
                                        /\ (Exclude = <<>> \/ Below(<<"P">>, Target(a.path)))
                   /\ args' = Append(args, a)
             /\ UNCHANGED <<phase, cfg>> /\ Rest
Start == /\ phase = "args" /\ phase' = "run" /\ argi' = 1
         /\ UNCHANGED <<cfg, args, todo, walk, found, skipped, failed>>
Choose == \/ Pick("include", "exclude", "include", Includes)
          \/ Pick("exclude", "ignore", "exclude", Excludes)
          \/ Pick("ignore", "respect", "ignore", Ignores)
          \/ Pick("respect", "config", "respect", Respects)
          \/ Pick("config", "cwd", "config", Configs)
          \/ Pick("cwd", "args", "cwd", Cwds)
          \/ ChooseArg \/ Start

(* ------------------------------- the program ---------------------------- *)
Jobs == IF args = <<>> THEN <<[kind |-> "dir", path |-> Root]>> ELSE args
Begin(d, include) ==
    /\ todo' = IF Last(d) \in Vcs THEN {} ELSE {d}
    /\ walk' = [dir |-> d, include |-> include]
    /\ UNCHANGED <<found, skipped, failed>>
Look == /\ phase = "run" /\ todo = {} /\ argi <= Len(Jobs)
        /\ argi' = argi + 1
        /\ LET a == Jobs[argi]
           IN CASE a.kind = "dir" -> Begin(a.path, Include)
                [] a.kind = "glob" -> Begin(Root, <<a.glob>>)
                [] a.kind = "file" ->
                     /\ IF Skips(Target(a.path))
                        THEN skipped' = skipped \cup {Target(a.path)} /\ UNCHANGED found
                        ELSE found' = found \cup {Target(a.path)} /\ UNCHANGED skipped
                     /\ UNCHANGED <<todo, walk, failed>>
                [] a.kind = "missing" -> failed' = failed + 1 /\ UNCHANGED <<todo, walk, found, skipped>>
        /\ UNCHANGED <<phase, cfg, args>>
Enter(p) == p \in Dirs /\ Last(p) \notin Vcs /\ (~Ignored(p, TRUE) \/ "enter_ignored" \in Defects)
Visit == /\ phase = "run" /\ todo # {}
         /\ \E d \in IF AnyOrder THEN todo ELSE {CHOOSE x \in todo : TRUE} :
               /\ todo' = (todo \ {d}) \cup {p \in Children(d) : Enter(p)}
               /\ found' = found \cup {p \in Children(d) \cap Files :
                                         ~Ignored(p, FALSE) /\ Passes(walk.include, walk.dir, p)}
         /\ UNCHANGED <<phase, cfg, args, argi, walk, skipped, failed>>
Finish == /\ phase = "run" /\ todo = {} /\ argi > Len(Jobs)
          /\ phase' = "done"
          /\ UNCHANGED <<cfg, args, argi, todo, walk, found, skipped, failed>>
Next == Choose \/ Look \/ Visit \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TypeOK == found \subseteq Files /\ skipped \subseteq Files /\ todo \subseteq Dirs
Right == phase = "done" => found = Selected
\* nothing that was not asked for
Sound == phase = "run" => found \subseteq Selected
\* a skipped file is not processed
Apart == found \cap skipped = {}

(* --------------------------------- export ------------------------------- *)
Emit == phase # "done"
        \/ PrintT("@@" \o ToJson([cfg |-> cfg, args |-> args, found |-> found \ IgnoreFiles,
                                  covered |-> {p \in Plain \ {<<"P", "tombi.toml">>} :
                                                 Below(Root, p) /\ Passes(Include, Root, p)},
                                  skipped |-> Cardinality(skipped \ found),
                                  failed |-> failed + Cardinality(found \cap IgnoreFiles)]))
=============================================================================
