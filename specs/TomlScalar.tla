----------------------------- MODULE TomlScalar -----------------------------
(***************************************************************************)
(* Scalar literals of TOML v1.0.0 and v1.1.0.                               *)
(*                                                                          *)
(* A literal is written symbol by symbol; a deterministic automaton reads   *)
(* along.  Once a symbol is wrong the literal is dead; it gets at most      *)
(* Beyond further symbols.  So every literal of up to MaxLen symbols that   *)
(* is right, and every one that is wrong only at its end, is a behaviour.   *)
(*                                                                          *)
(* State                                                                    *)
(*   text   the symbols so far                                              *)
(*   st     state of the automaton                                          *)
(*   val    what the literal means so far (for strings: code points)        *)
(*   need   hexadecimal digits still needed by an escape sequence           *)
(*   acc    value of its digits so far                                      *)
(*   v11    only TOML v1.1.0 has what was written                           *)
(*   over   symbols since the literal died                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Family,   \* "number", "basic", "literal", "mlbasic", "mlliteral", "date"
          Symbols,  \* symbols to write with
          MaxLen,
          Beyond,
          MaxOdd,   \* date: fields that are not the usual ones
          Defects   \* faults put into the automaton, to see that TLC notices

VARIABLES text, st, val, need, acc, v11, over
vars == <<text, st, val, need, acc, v11, over>>

Last(s) == s[Len(s)]
Strings == {"basic", "literal", "mlbasic", "mlliteral"}
Multi == Family \in {"mlbasic", "mlliteral"}
Escapes == Family \in {"basic", "mlbasic"}

(* -------------------------------- numbers ------------------------------- *)
\* D E: 18 decimal digits, 20 sevens; B: 62 ones; H: 15 letters f
Bin == {"0", "1", "B"}
Oct == Bin \cup {"7", "E"}
Dec == Oct \cup {"8", "D"}
Hex == Dec \cup {"a", "b", "e", "f", "F", "E1", "H"}
Words == {"inf", "nan", "true", "false"}

NumberStep(s, x) ==
  CASE s = "start" -> CASE x \in {"+", "-"} -> "sign"
                        [] x = "0" -> "zero"
                        [] x \in Dec -> "int"
                        [] x \in {"true", "false"} -> "bool"
                        [] x \in {"inf", "nan"} -> "special"
                        [] OTHER -> "dead"
    [] s = "sign" -> CASE x = "0" -> "szero"
                       [] x \in Dec -> "int"
                       [] x \in {"inf", "nan"} -> "special"
                       [] OTHER -> "dead"
    [] s \in {"zero", "szero"} ->
                     CASE x = "." -> "dot"
                       [] x \in {"e", "E1"} -> "exp"
                       [] s = "zero" /\ x = "x" -> "hex0"
                       [] s = "zero" /\ x = "o" -> "oct0"
                       [] s = "zero" /\ x = "b" -> "bin0"
                       [] OTHER -> "dead"
    [] s = "int" -> CASE x \in Dec -> "int"
                      [] x = "_" -> "int_"
                      [] x = "." -> "dot"
                      [] x \in {"e", "E1"} -> "exp"
                      [] OTHER -> "dead"
    [] s = "int_" -> IF x \in Dec THEN "int" ELSE "dead"
    [] s = "dot" -> IF x \in Dec THEN "frac" ELSE "dead"
    [] s = "frac" -> CASE x \in Dec -> "frac"
                       [] x = "_" -> "dot"
                       [] x \in {"e", "E1"} -> "exp"
                       [] OTHER -> "dead"
    [] s = "exp" -> CASE x \in {"+", "-"} -> "exps"
                      [] x \in Dec -> "expd"
                      [] OTHER -> "dead"
    [] s = "exps" -> IF x \in Dec THEN "expd" ELSE "dead"
    [] s = "expd" -> CASE x \in Dec -> "expd"
                       [] x = "_" -> "exps"
                       [] OTHER -> "dead"
    [] s = "hex0" -> IF x \in Hex THEN "hex" ELSE "dead"
    [] s = "hex" -> IF x \in Hex THEN "hex" ELSE IF x = "_" THEN "hex0" ELSE "dead"
    [] s = "oct0" -> IF x \in Oct THEN "oct" ELSE "dead"
    [] s = "oct" -> IF x \in Oct THEN "oct" ELSE IF x = "_" THEN "oct0" ELSE "dead"
    [] s = "bin0" -> IF x \in Bin THEN "bin" ELSE "dead"
    [] s = "bin" -> IF x \in Bin THEN "bin" ELSE IF x = "_" THEN "bin0" ELSE "dead"
    [] OTHER -> "dead"

NumberKind(s) ==
  CASE s \in {"zero", "szero", "int"} -> "dec"
    [] s \in {"frac", "expd"} -> "float"
    [] s \in {"hex", "oct", "bin", "bool", "special"} -> s
    [] s = "int_" /\ "loose_underscore" \in Defects -> "dec"
    [] OTHER -> "none"

\* The same, said at once of the whole text (the ABNF of toml.io).
Digits(s, D) == /\ s # <<>> /\ s[1] # "_" /\ Last(s) # "_"
                /\ \A i \in DOMAIN s : s[i] \in D \cup {"_"}
                /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = "_" /\ s[i+1] = "_")
Unsigned(s) == IF s # <<>> /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s
DecInt(s) == Digits(s, Dec) /\ (Len(s) > 1 => s[1] # "0")
Exponent(s) == Len(s) > 1 /\ s[1] \in {"e", "E1"} /\ Digits(Unsigned(Tail(s)), Dec)
Fraction(s) == Len(s) > 1 /\ s[1] = "." /\ Digits(Tail(s), Dec)
Float(s) == \E i \in 1..Len(s) : DecInt(SubSeq(s, 1, i)) /\
              LET r == SubSeq(s, i + 1, Len(s)) IN
                \/ Exponent(r)
                \/ \E j \in 1..Len(r) : Fraction(SubSeq(r, 1, j)) /\
                     (j = Len(r) \/ Exponent(SubSeq(r, j + 1, Len(r))))
Prefixed(s, p, D) == Len(s) > 2 /\ s[1] = "0" /\ s[2] = p /\ Digits(SubSeq(s, 3, Len(s)), D)
NumberGrammar(s) ==
  CASE DecInt(Unsigned(s)) -> "dec"
    [] Float(Unsigned(s)) -> "float"
    [] Prefixed(s, "x", Hex) -> "hex"
    [] Prefixed(s, "o", Oct) -> "oct"
    [] Prefixed(s, "b", Bin) -> "bin"
    [] s \in {<<"true">>, <<"false">>} -> "bool"
    [] Unsigned(s) \in {<<"inf">>, <<"nan">>} -> "special"
    [] OTHER -> "none"

(* ---------------------------- as a (dotted) key ------------------------- *)
KeyParts(s) == LET F[i \in 0..Len(s)] ==
                     IF i = 0 THEN << <<>> >>
                     ELSE IF s[i] = "." THEN F[i-1] \o << <<>> >>
                     ELSE [F[i-1] EXCEPT ![Len(F[i-1])] = Append(@, s[i])]
               IN F[Len(s)]
BareKey(s) == /\ s # <<>>
              /\ \A i \in DOMAIN s : s[i] # "+"
              /\ \A p \in {KeyParts(s)[i] : i \in DOMAIN KeyParts(s)} : p # <<>>

(* -------------------------------- strings ------------------------------- *)
\* symbols: "q" the quote of the string, "Q" the other one, "\\", letters and
\* digits as they are, "sp" "tab" "nl" "crlf" "cr" "ctl" "del" "uni" "emo"
Code(x) == CASE x = "q" -> IF Family \in {"basic", "mlbasic"} THEN 34 ELSE 39
             [] x = "Q" -> IF Family \in {"basic", "mlbasic"} THEN 39 ELSE 34
             [] x = "\\" -> 92 [] x = "sp" -> 32 [] x = "tab" -> 9 [] x = "nl" -> 10
             [] x = "nbsp" -> 160 [] x = "+" -> 43 [] x = "uni" -> 233 [] x = "emo" -> 128512
             [] x = "0" -> 48 [] x = "1" -> 49 [] x = "8" -> 56
             [] x = "D" -> 68 [] x = "F" -> 70 [] x = "b" -> 98 [] x = "e" -> 101 [] x = "f" -> 102
             [] x = "n" -> 110 [] x = "r" -> 114 [] x = "t" -> 116 [] x = "u" -> 117
             [] x = "U" -> 85 [] x = "x" -> 120 [] x = "g" -> 103 [] x = "#" -> 35
             [] OTHER -> 0
HexDigit(x) == CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "8" -> 8 [] x = "b" -> 11 [] x = "D" -> 13
                 [] x = "e" -> 14 [] x \in {"f", "F"} -> 15 [] OTHER -> -1
Control == {"cr", "ctl", "del"}
Newline == {"nl", "crlf"}
Scalar(n) == n <= 1114111 /\ ~(n >= 55296 /\ n <= 57343)
Quotes(n) == [i \in 1..n |-> Code("q")]
Codes(x) == IF x = "crlf" THEN <<10>> ELSE <<Code(x)>>   \* line endings are compared as line feeds
SimpleEscape(x) == CASE x = "b" -> 8 [] x = "t" -> 9 [] x = "n" -> 10 [] x = "f" -> 12 [] x = "r" -> 13
                     [] x = "q" -> 34 [] x = "\\" -> 92 [] x = "e" -> 27 [] OTHER -> -1

\* what an ordinary position makes of x: <<state, value, need, v1.1.0 only>>
Ordinary(v, x) ==
  CASE x \in Control -> <<"dead", v, 0, FALSE>>
    [] x \in Newline /\ ~Multi -> <<"dead", v, 0, FALSE>>
    [] x = "\\" /\ Escapes -> <<"esc", v, 0, FALSE>>
    [] x = "q" -> IF Multi THEN <<"q1", v, 0, FALSE>> ELSE <<"closed", v, 0, FALSE>>
    [] OTHER -> <<"s", v \o Codes(x), 0, FALSE>>
StringStep(s, v, x) ==
  CASE s = "start" -> IF Multi /\ x \in Newline THEN <<"s", v, 0, FALSE>> ELSE Ordinary(v, x)
    [] s = "s" -> Ordinary(v, x)
    [] s = "esc" ->
         CASE SimpleEscape(x) >= 0 -> <<"s", Append(v, SimpleEscape(x)), 0, x = "e">>
           [] x = "u" -> <<"hexd", v, 4, FALSE>>
           [] x = "U" -> <<"hexd", v, 8, FALSE>>
           [] x = "x" -> <<"hexd", v, 2, TRUE>>
           [] Multi /\ x \in {"sp", "tab"} -> <<"escws", v, 0, FALSE>>
           [] Multi /\ x \in Newline -> <<"trim", v, 0, FALSE>>
           [] OTHER -> <<"dead", v, 0, FALSE>>
    [] s = "hexd" ->
         LET n == IF acc > 100000000 THEN acc ELSE acc * 16 + HexDigit(x) IN
         CASE HexDigit(x) < 0 -> <<"dead", v, 0, FALSE>>
           [] need > 1 -> <<"hexd", v, need - 1, FALSE>>
           [] Scalar(n) -> <<"s", Append(v, n), 0, FALSE>>
           [] OTHER -> <<"dead", v, 0, FALSE>>
    [] s = "escws" -> CASE x \in {"sp", "tab"} -> <<"escws", v, 0, FALSE>>
                        [] x \in Newline -> <<"trim", v, 0, FALSE>>
                        [] OTHER -> <<"dead", v, 0, FALSE>>
    [] s = "trim" -> IF x \in Newline \cup {"sp", "tab"} THEN <<"trim", v, 0, FALSE>> ELSE Ordinary(v, x)
    [] s = "q1" -> IF x = "q" THEN <<"q2", v, 0, FALSE>> ELSE Ordinary(v \o Quotes(1), x)
    [] s = "q2" -> IF x = "q" THEN <<"q3", v, 0, FALSE>> ELSE Ordinary(v \o Quotes(2), x)
    [] s = "q3" -> IF x = "q" THEN <<"q4", v \o Quotes(1), 0, FALSE>> ELSE <<"dead", v, 0, FALSE>>
    [] s = "q4" -> IF x = "q" THEN <<"q5", v \o Quotes(1), 0, FALSE>> ELSE <<"dead", v, 0, FALSE>>
    [] OTHER -> <<"dead", v, 0, FALSE>>
Closed == st \in {"closed", "q3", "q4", "q5"}

(* ----------------------------- dates and times -------------------------- *)
\* text holds the fields written so far, in this order
Fields == <<"year", "month", "day", "delim", "hour", "minute", "second", "fraction", "offset">>
Usual == [year |-> "1979", month |-> "05", day |-> "27", delim |-> "T", hour |-> "07", minute |-> "32",
          second |-> "00", fraction |-> "", offset |-> "Z"]
Odd == [year |-> {"0000", "0001", "1900", "2000", "2023", "2024", "9999", "979", "10000", "+979"},
        month |-> {"00", "01", "02", "04", "12", "13", "5"},
        day |-> {"00", "01", "28", "29", "30", "31", "32", "7"},
        delim |-> {"t", " ", "", "_", "  "},
        hour |-> {"00", "23", "24", "7"},
        minute |-> {"00", "59", "60", "2"},
        second |-> {"59", "60", "61", "0", "none"},
        fraction |-> {".5", ".123456789", ".000000", ".", ".1234567890123"},
        offset |-> {"none", "z", "+00:00", "-07:30", "+23:59", "-24:00", "+00:60", "+07", "+7:00", "-00:00", "+0730",
                    " Z"}]
Number(s) == CASE s = "00" -> 0 [] s = "01" -> 1 [] s = "02" -> 2 [] s = "04" -> 4 [] s = "05" -> 5 [] s = "07" -> 7
               [] s = "12" -> 12 [] s = "13" -> 13 [] s = "23" -> 23 [] s = "24" -> 24 [] s = "27" -> 27 [] s = "28" -> 28
               [] s = "29" -> 29 [] s = "30" -> 30 [] s = "31" -> 31 [] s = "32" -> 32 [] s = "59" -> 59 [] s = "60" -> 60
               [] s = "61" -> 61 [] OTHER -> -1
Year(s) == CASE s = "0000" -> 0 [] s = "0001" -> 1 [] s = "1900" -> 1900 [] s = "1979" -> 1979 [] s = "2000" -> 2000
             [] s = "2023" -> 2023 [] s = "2024" -> 2024 [] s = "9999" -> 9999 [] OTHER -> -1
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
Field(f) == LET F[i \in 0..Len(text)] == IF i = 0 THEN "none"
                  ELSE IF text[i][1] = f THEN text[i][2] ELSE F[i-1] IN F[Len(text)]
Has(f) == Field(f) # "none"
OddOnes(t) == Cardinality({i \in DOMAIN t : t[i][2] # Usual[t[i][1]]})
NextFields == IF text = <<>> THEN {"year", "hour"}
              ELSE LET l == Last(text)[1]
                       k == CHOOSE i \in DOMAIN Fields : Fields[i] = l IN
                   IF k < Len(Fields) THEN {Fields[k+1]} ELSE {}
DateOk == /\ Year(Field("year")) >= 0 /\ Number(Field("month")) \in 1..12
          /\ Number(Field("day")) \in 1..DaysIn(Year(Field("year")), Number(Field("month")))
\* second 60 is in the grammar, but not on every clock: both verdicts are right
LeapSecond == Field("second") = "60"
TimeOk == /\ Number(Field("hour")) \in 0..23 /\ Number(Field("minute")) \in 0..59
          /\ (Has("second") => Number(Field("second")) \in 0..60)
          /\ Field("fraction") \in {"none", "", ".5", ".123456789", ".000000", ".1234567890123"}
          /\ (Field("fraction") \notin {"none", ""} => Has("second"))
DelimOk == Field("delim") \in {"T", "t", " "}
OffsetOk == Field("offset") \in {"none", "Z", "z", "+00:00", "-07:30", "+23:59", "-00:00"}
\* complete: "date", "ldt", "odt", "time" or not a date at all
DateKind ==
  LET complete(f) == text # <<>> /\ Last(text)[1] = f IN
  CASE complete("day") -> IF DateOk THEN "date" ELSE "none"
    [] complete("offset") /\ Has("year") ->
         IF DateOk /\ DelimOk /\ TimeOk /\ OffsetOk THEN (IF Has("offset") THEN "odt" ELSE "ldt") ELSE "none"
    [] complete("offset") -> IF TimeOk /\ ~Has("offset") THEN "time" ELSE "none"
    [] OTHER -> "part"

(* ------------------------------- behaviour ------------------------------ *)
Init == /\ text = <<>> /\ st = "start" /\ val = <<>> /\ need = 0 /\ acc = 0 /\ v11 = FALSE /\ over = 0

Dead == st = "dead"
Write(x) ==
  /\ Family # "date"
  /\ Len(text) < MaxLen
  /\ over < Beyond \/ (~Dead /\ ~(Family \in Strings /\ st = "closed"))
  /\ (Family \in Strings /\ Closed /\ x # "q") => x = "g"
  /\ ~(x = "nl" /\ text # <<>> /\ Last(text) = "cr")   \* that would be "crlf"
  /\ text' = Append(text, x)
  /\ over' = IF Dead THEN over + 1 ELSE over
  /\ IF Dead THEN UNCHANGED <<st, val, need, acc, v11>>
     ELSE IF Family = "number" THEN
            st' = NumberStep(st, x) /\ UNCHANGED <<val, need, acc, v11>>
     ELSE LET r == StringStep(st, val, x) IN
          /\ st' = r[1] /\ val' = r[2] /\ need' = r[3] /\ v11' = (v11 \/ r[4])
          /\ acc' = IF st = "hexd" /\ HexDigit(x) >= 0 /\ acc <= 100000000 THEN acc * 16 + HexDigit(x) ELSE 0

AddField(f) ==
  /\ Family = "date"
  /\ f \in NextFields
  /\ \E v \in {Usual[f]} \cup Odd[f] :
       /\ OddOnes(Append(text, <<f, v>>)) <= MaxOdd
       /\ text' = Append(text, <<f, v>>)
       /\ v11' = (v11 \/ (f = "second" /\ v = "none"))
  /\ UNCHANGED <<st, val, need, acc, over>>

Next == (\E x \in Symbols : Write(x)) \/ (\E f \in {Fields[i] : i \in DOMAIN Fields} : AddField(f))
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Kind == CASE Family = "number" -> NumberKind(st)
          [] Family = "date" -> DateKind
          [] OTHER -> IF Closed THEN "str" ELSE "none"
Deterministic == Family = "number" => NumberKind(st) = NumberGrammar(text)
\* an escape sequence yields exactly one code point, text itself at most one per symbol
ValueBounded == Len(val) <= Len(text)
CodesAllowed == \A i \in DOMAIN val : Scalar(val[i])

(* ------------------------------- vectors ------------------------------- *)
Emit == (text # <<>> /\ Kind # "part") =>
          PrintT("@@" \o ToJson([family |-> Family, text |-> text, kind |-> Kind,
             value |-> val, v11 |-> v11, closed |-> Closed, dead |-> Dead, key |-> (Family = "number" /\ BareKey(text)),
             either |-> (Family = "date" /\ LeapSecond)]))
=============================================================================
