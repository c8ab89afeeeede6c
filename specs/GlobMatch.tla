----------------------------- MODULE GlobMatch -----------------------------
(***************************************************************************)
(* Glob patterns over paths, as the configuration's `include`, `exclude`   *)
(* and override file patterns use them.  A path is a sequence of component *)
(* names; a pattern a sequence of component patterns, where ** stands for  *)
(* any number of components and everything else for exactly one.           *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

\* component names: those that end in .toml, and those of one letter before it
Toml == {"a.toml", "c.toml", "d.toml", "tombi.toml", "x.toml", "lnk.toml", "pyproject.toml"}
OneLetter == {"a.toml", "c.toml", "d.toml", "x.toml"}

GlobDeep == [k |-> "deep", s |-> {}]
GlobAny == [k |-> "any", s |-> {}]
GlobToml == [k |-> "toml", s |-> {}]
GlobOne == [k |-> "one", s |-> {}]
GlobNot(S) == [k |-> "not", s |-> S]
GlobIn(S) == [k |-> "in", s |-> S]

\* the patterns the specifications use, by their text
Glob(t) ==
    CASE t = "**/*.toml" -> <<GlobDeep, GlobToml>>
      [] t = "*.toml" -> <<GlobToml>>
      [] t = "**/*" -> <<GlobDeep, GlobAny>>
      [] t = "**" -> <<GlobDeep>>
      [] t = "*" -> <<GlobAny>>
      [] t = "?.toml" -> <<GlobOne>>
      [] t = "**/?.toml" -> <<GlobDeep, GlobOne>>
      [] t = "a.toml" -> <<GlobIn({"a.toml"})>>
      [] t = "c.toml" -> <<GlobIn({"c.toml"})>>
      [] t = "b.txt" -> <<GlobIn({"b.txt"})>>
      [] t = "[ac].toml" -> <<GlobIn({"a.toml", "c.toml"})>>
      [] t = "**/[ax].toml" -> <<GlobDeep, GlobIn({"a.toml", "x.toml"})>>
      [] t = "**/a.toml" -> <<GlobDeep, GlobIn({"a.toml"})>>
      [] t = "**/[!a].toml" -> <<GlobDeep, GlobNot({"a.toml"})>>
      [] t = "sub/**" -> <<GlobIn({"sub"}), GlobDeep>>
      [] t = "sub/*.toml" -> <<GlobIn({"sub"}), GlobToml>>
      [] t = "sub/a.toml" -> <<GlobIn({"sub"}), GlobIn({"a.toml"})>>
      [] t = "sub/**/a.toml" -> <<GlobIn({"sub"}), GlobDeep, GlobIn({"a.toml"})>>
      [] t = "*/a.toml" -> <<GlobAny, GlobIn({"a.toml"})>>
      [] t = "*/*/*.toml" -> <<GlobAny, GlobAny, GlobToml>>
      [] t = "[sv]*/*" -> <<GlobIn({"sub", "vendor"}), GlobAny>>
      [] t = "vendor/**" -> <<GlobIn({"vendor"}), GlobDeep>>
      [] t = "**/vendor/**" -> <<GlobDeep, GlobIn({"vendor"}), GlobDeep>>
      [] t = "**/deep/*" -> <<GlobDeep, GlobIn({"deep"}), GlobAny>>
      [] t = ".hid/*" -> <<GlobIn({".hid"}), GlobAny>>
      [] t = ".git/**" -> <<GlobIn({".git"}), GlobDeep>>
      [] t = "deep/*.toml" -> <<GlobIn({"deep"}), GlobToml>>
      [] OTHER -> Assert(FALSE, <<"no such pattern", t>>)


CompMatch(c, n) ==
    CASE c.k = "any" -> TRUE
      [] c.k = "toml" -> n \in Toml
      [] c.k = "one" -> n \in OneLetter
      [] c.k = "not" -> n \in OneLetter \ c.s
      [] c.k = "in" -> n \in c.s

RECURSIVE GlobMatches(_, _)
GlobMatches(p, path) ==
    IF p = <<>> THEN path = <<>>
    ELSE IF p[1].k = "deep"
         THEN GlobMatches(Tail(p), path)
              \/ (path # <<>> /\ GlobMatches(p, Tail(path)))
         ELSE path # <<>> /\ CompMatch(p[1], path[1]) /\ GlobMatches(Tail(p), Tail(path))

MatchesAny(texts, path) == \E i \in DOMAIN texts : GlobMatches(Glob(texts[i]), path)
=============================================================================
