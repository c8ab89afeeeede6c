------------------------------ MODULE Overrides ------------------------------
(***************************************************************************)
(* The format and lint options of one file, from a configuration with      *)
(* overrides.                                                              *)
(*                                                                         *)
(* The overrides are looked at in order; the first whose patterns cover    *)
(* the file decides: it switches the feature off, or its rules are put     *)
(* over those of the configuration, key by key, or, when it says nothing   *)
(* about the feature, the configuration stands as it is.                   *)
(*                                                                         *)
(* The configuration may stand in four places; patterns are relative to    *)
(* the directory it is for (the parent of .config).                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, GlobMatch

CONSTANTS Files,      \* paths below the project
          Places,     \* tombi, dottombi, dotconfig, pyproject
          Includes, Excludes, \* lists of patterns; <<>>: no such key
          KeySets,    \* sets of rules that are given together
          Enabled,    \* subset of {"-", "true", "false"}
          Features,   \* subset of {"format", "lint"}
          Says,       \* subset of BOOLEAN: does an override speak of the feature
          MaxOverrides,
          Defects

VARIABLES phase, feature, place, file, base, ovs, cur, i, answer
vars == <<phase, feature, place, file, base, ovs, cur, i, answer>>

Off == [on |-> FALSE, base |-> {}, over |-> {}, from |-> 0]
NoOverride == [inc |-> <<>>, exc |-> <<>>, says |-> FALSE, enabled |-> "-", keys |-> {}]
Init == /\ phase = "open" /\ feature \in Features /\ place \in Places /\ file \in Files
        /\ base = {} /\ ovs = <<>> /\ cur = NoOverride /\ i = 0 /\ answer = Off
ChooseBase == /\ phase = "open" /\ phase' = "more"
              /\ base' \in KeySets
              /\ UNCHANGED <<feature, place, file, ovs, cur, i, answer>>
Begin == /\ phase = "more" /\ Len(ovs) < MaxOverrides
         /\ phase' = "says"
         /\ \E n \in Includes, x \in Excludes : cur' = [NoOverride EXCEPT !.inc = n, !.exc = x]
         /\ UNCHANGED <<feature, place, file, base, ovs, i, answer>>
Speak == /\ phase = "says" /\ phase' = "more"
         /\ \E s \in Says :
              IF s THEN \E e \in Enabled, k \in KeySets :
                           ovs' = Append(ovs, [cur EXCEPT !.says = TRUE, !.enabled = e, !.keys = k])
              ELSE ovs' = Append(ovs, cur)
         /\ cur' = NoOverride
         /\ UNCHANGED <<feature, place, file, base, i, answer>>
Start == /\ phase = "more" /\ phase' = "look" /\ i' = 1
         /\ UNCHANGED <<feature, place, file, base, ovs, cur, answer>>

Covers(o) == MatchesAny(o.inc, file) /\ ~MatchesAny(o.exc, file)
Answer(o, n) ==
    IF ~o.says THEN [on |-> TRUE, base |-> base, over |-> {}, from |-> n]
    ELSE IF o.enabled = "false" THEN [Off EXCEPT !.from = n]
    ELSE [on |-> TRUE, base |-> base \ o.keys, over |-> o.keys, from |-> n]
Look == /\ phase = "look"
        /\ IF i > Len(ovs)
           THEN /\ phase' = "done" /\ UNCHANGED i
                /\ answer' = [on |-> TRUE, base |-> base, over |-> {}, from |-> 0]
           ELSE IF Covers(ovs[i]) /\ ~("says_nothing" \in Defects /\ ~ovs[i].says)
                THEN phase' = "done" /\ answer' = Answer(ovs[i], i) /\ UNCHANGED i
                ELSE i' = i + 1 /\ UNCHANGED <<phase, answer>>
        /\ UNCHANGED <<feature, place, file, base, ovs, cur>>
Next == ChooseBase \/ Begin \/ Speak \/ Start \/ Look
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Covering == {n \in DOMAIN ovs : Covers(ovs[n])}
Right == phase = "done" =>
    /\ answer.from = 0 <=> Covering = {}
    /\ answer.from # 0 => answer.from \in Covering /\ \A n \in Covering : n >= answer.from
    /\ answer.on => /\ answer.base \cap answer.over = {}
                    /\ answer.base \cup answer.over = base \cup answer.over
                    /\ answer.base \subseteq base
    \* every rule that is given somewhere that counts has a value
    /\ answer.on /\ answer.from # 0 /\ ovs[answer.from].says
         => answer.base \cup answer.over = base \cup ovs[answer.from].keys
Emit == phase # "done"
        \/ PrintT("@@" \o ToJson([feature |-> feature, place |-> place, file |-> file, base |-> base,
                                  ovs |-> ovs, answer |-> answer]))
=============================================================================
