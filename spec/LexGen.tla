------------------------------- MODULE LexGen -------------------------------
(* Texts and values to try: a writer types characters, edits texts that are   *)
(* (nearly) right, or fills in all the fields.  IOEnv.PROP selects the types, *)
(* IOEnv.DEEP the depth.                                                     *)
EXTENDS Lexical, Json, IOUtils
Prop == IOEnv.PROP
Deep == IOEnv.DEEP = "1"
Types == CASE Prop \in {"P11", "P12"} -> DateTypes [] Prop = "P13" -> NumTypes [] Prop = "P14" -> {"duration"}

(* ------------------------------------------------------- values by fields *)
Zones == {"none", "0", "840", "-840", "390", "-390", "1", "-1", "-59", "60"}
FewZones == {"none", "0", "-390", "840"}
Years == {"1", "44", "400", "999", "1000", "1900", "2000", "2004", "2023", "9999"}
LongYears == {"-1", "-44", "-9999", "-10000", "10000", "123456789", "-123456789"}
Dates == {<<y, m, d>> \in (Years \X {"1", "2", "4", "9", "10", "12"} \X {"1", "9", "10", "28", "29", "30", "31"}) :
            DateBody(WriteDate(<<y, m, d>>)).v = "ok"}
FewDates == {<<"1", "1", "1">>, <<"2004", "2", "29">>, <<"1999", "12", "31">>, <<"9999", "10", "9">>}
Times == {"0", "1", "9", "10", "23"} \X {"0", "5", "59"} \X {"0", "7", "59"} \X {"", "5", "05", "000000001", "123456789", "12", "999"}
FewTimes == {<<"0", "0", "0", "">>, <<"23", "59", "59", "999999999">>, <<"4", "5", "6", "07">>, <<"12", "0", "9", "120003">>}
Big == {"1", "9", "10", "99999999999999999999", "100000000000000000000000000000", "18446744073709551616", "9223372036854775808"}
Ints(ty) == CASE ty = "integer" -> {"0"} \cup Big \cup {"-" \o b : b \in Big}
              [] ty = "nonNegativeInteger" -> {"0"} \cup Big
              [] ty = "positiveInteger" -> Big
              [] ty = "nonPositiveInteger" -> {"0"} \cup {"-" \o b : b \in Big}
              [] ty = "negativeInteger" -> {"-" \o b : b \in Big}
Ns == {"0", "1", "60", MaxU64}
Secs == {"0", "1", "0.5", "59.999", "1.14", "0.000000001", "123456.789", "10", "36.39", "100000", "0.1", "2.3"}
Values(ty) ==
  CASE ty = "date" -> {d \o <<z>> : d \in Dates, z \in Zones} \cup {<<y, "12", "31", z>> : y \in {"-1", "-44", "-9999"}, z \in FewZones}
    [] ty = "time" -> {t \o <<z>> : t \in Times, z \in FewZones} \cup {t \o <<z>> : t \in FewTimes, z \in Zones}
    [] ty \in {"dateTime", "dateTimeStamp"} ->
         {d \o t \o <<z>> : d \in FewDates, t \in FewTimes, z \in Zones \ {"none"}}
         \cup {d \o <<"0", "30", "0", "5", z>> : d \in Dates, z \in {"0", "-390", "840"}}
         \cup {<<"2000", "1", "1">> \o t \o <<z>> : t \in Times, z \in {"0", "60", "-840"}}
    [] ty = "gYear" -> {<<y, z>> : y \in Years \cup LongYears \cup {"0", "-2147483648", "2147483647"}, z \in Zones}
    [] ty = "gYearMonth" -> {<<y, m, z>> : y \in Years \cup LongYears \cup {"0", "-2147483648"}, m \in {"-1", "0", "1", "9", "10", "12", "13"}, z \in Zones}
    [] ty = "gMonth" -> {<<ToString(m), z>> : m \in (-1)..14, z \in Zones}
    [] ty = "gMonthDay" -> {<<ToString(m), ToString(d), z>> : m \in (-1)..14, d \in (-1)..33, z \in FewZones}
    [] ty = "gDay" -> {<<ToString(d), z>> : d \in (-1)..33, z \in Zones}
    [] ty \in IntTypes -> {<<x>> : x \in Ints(ty)}
    [] ty = "decimal" -> {<<n, k>> : n \in {"0", "1", "-1", "10", "-100", "12345678901234567890", "-5000", "7"}, k \in {"-25", "-3", "-1", "0", "1", "2", "5", "40"}}
    [] ty = "duration" -> {<<g, y, m, d, h, n, "0">> : g \in {"", "-"}, y \in Ns, m \in Ns, d \in Ns, h \in Ns, n \in Ns}
                          \cup {<<g, y, "0", d, "0", n, s>> : g \in {"", "-"}, y \in {"0", "3"}, d \in {"0", "1", "213503982334601", "213503982334602"}, n \in {"0", "59"}, s \in Secs}

(* ----------------------------------------------------------- texts by field *)
P2(a, b) == {Pad(ToString(i), 2) : i \in a..b}
AllZones == {g \o h \o ":" \o m : g \in {"+", "-"}, h \in P2(0, 15) \cup {"24", "99", "1", "001"}, m \in {"00", "01", "29", "30", "59", "60", "61", "99", "0", "000"}} \cup {"Z", "z", "ZZ", "+0000", "+00", "UTC"}
Fractions == {".0", ".000", ".5", ".50", ".123456789", ".000000001", ".", ".5.", ".1234567890", ".a"}
Texts(ty) ==
  CASE ty = "date" -> {y \o "-" \o m \o "-" \o d : y \in {"2000", "2001", "1900", "2004", "-0004", "0000", "10000", "01999", "999"}, m \in P2(0, 14), d \in P2(0, 33)}
                      \cup {"2004-02-29" \o z : z \in AllZones}
    [] ty = "time" -> {h \o ":" \o m \o ":" \o s : h \in P2(0, 26), m \in {"00", "09", "59", "60"}, s \in {"00", "01", "59", "60", "61"}}
                      \cup {"00:" \o m \o ":" \o s : m \in P2(0, 62), s \in P2(0, 62)}
                      \cup {t \o f \o z : t \in {"00:00:00", "23:59:59", "24:00:00", "24:00:01"}, f \in Fractions \cup {""}, z \in AllZones \cup {""}}
    [] ty \in {"dateTime", "dateTimeStamp"} ->
         {y \o "-" \o m \o "-" \o d \o "T10:20:30" \o z : y \in {"2000", "1900", "2001"}, m \in P2(0, 13), d \in P2(0, 32), z \in {"", "Z"}}
         \cup {"2001-10-26T" \o h \o ":" \o m \o ":" \o s \o z : h \in P2(0, 25), m \in {"00", "59", "60"}, s \in {"00", "59", "60", "61"}, z \in {"", "-05:00"}}
         \cup {"2001-10-26T21:32:52" \o f \o z : f \in Fractions \cup {""}, z \in AllZones \cup {""}}
    [] ty = "gYear" -> {g \o y \o z : g \in {"", "-", "+", "--"}, y \in {"0000", "0001", "1999", "999", "10000", "01999", "00001", "999999999", "2147483648", "99999999999", ""}, z \in {"", "Z", "+01:00"}}
                       \cup {g \o "1999" \o z : g \in {"", "-"}, z \in AllZones}
    [] ty = "gYearMonth" -> {g \o y \o "-" \o m \o z : g \in {"", "-", "+"}, y \in {"0000", "0001", "1999", "999", "10000", "01999"}, m \in P2(0, 15) \cup {"1", "001"}, z \in {"", "Z", "-01:00"}}
                            \cup {g \o "1999-05" \o z : g \in {"", "-"}, z \in AllZones}
    [] ty = "gMonth" -> {"--" \o m \o z : m \in P2(0, 99) \cup {"1", "001", "1-", "05--"}, z \in {"", "Z", "-01:00", "+14:00"}} \cup {"--10" \o z : z \in AllZones}
    [] ty = "gMonthDay" -> {"--" \o m \o "-" \o d \o z : m \in P2(0, 14), d \in P2(0, 34), z \in {"", "Z", "-01:00", "+14:00"}} \cup {"--10-31" \o z : z \in AllZones}
    [] ty = "gDay" -> {"---" \o d \o z : d \in P2(0, 99) \cup {"1", "001"}, z \in {"", "Z", "-01:00", "+14:00"}} \cup {"---31" \o z : z \in AllZones}
    [] ty \in IntTypes -> {g \o z \o n : g \in {"", "+", "-", "--", "+-", " "}, z \in {"", "0", "000"}, n \in {"", "0", "1", "7", "1234567890"} \cup Big}
    [] ty = "decimal" -> {g \o i \o p \o f : g \in {"", "+", "-"}, i \in {"", "0", "1", "00", "120", "99999999999999999999999"}, p \in {"", ".", ".."}, f \in {"", "0", "5", "050", "123456789012345678901234567890"}}
    [] ty = "duration" ->
         {g \o "P" \o y \o m \o d \o t \o h \o n \o s : g \in {"", "-"}, y \in {"", "1Y", "0Y"}, m \in {"", "11M"}, d \in {"", "31D"}, t \in {"", "T"}, h \in {"", "24H"}, n \in {"", "60M"}, s \in {"", "1S", "0.5S", "00.250S", "1.S", ".5S", "36.39S"}}
         \cup {"P" \o b \o u : b \in Big \cup {MaxU64, "018446744073709551615"}, u \in {"Y", "M", "D"}}
         \cup {"PT" \o b \o u : b \in Big \cup {MaxU64}, u \in {"H", "M", "S", ".5S"}}
         \cup {"PT" \o ToString(s) \o "." \o f \o "S" : s \in 0..(IF Deep THEN 61 ELSE 40), f \in P2(0, 99) \cup {"1", "125", "001", "999999999"}}

(* ------------------------------------------------------------- the writer *)
Seeds(ty) ==
  CASE ty = "date" -> {"2004-02-29", "1999-12-31Z", "-0044-03-15", "2001-10-26-05:30"}
    [] ty = "time" -> {"21:32:52", "01:02:03.5Z", "00:00:00-05:30"}
    [] ty \in {"dateTime", "dateTimeStamp"} -> {"2001-10-26T21:32:52", "2004-02-29T01:02:03.5Z", "1999-12-31T00:00:00-05:30"}
    [] ty = "gYear" -> {"2001", "-0099Z", "12345+14:00"}
    [] ty = "gYearMonth" -> {"2001-10", "-0099-12Z", "12345-01-05:30"}
    [] ty = "gMonth" -> {"--10", "--02Z", "--12-05:30"}
    [] ty = "gMonthDay" -> {"--02-29", "--10-31Z", "--12-01+05:30"}
    [] ty = "gDay" -> {"---01", "---30Z", "---31-05:30"}
    [] ty \in IntTypes -> {"0", "1", "-1", "+120", "-00120"}
    [] ty = "decimal" -> {"0", "-1.50", "+120.05", "00.001"}
    [] ty = "duration" -> {"P1Y2M3DT4H5M6.7S", "-PT0S", "P20M", "PT1.5S"}
Typed(ty) ==                               \* what is there before the writer types
  CASE ty = "date" -> {"2001-10-26"} [] ty = "time" -> {"21:32:52"} [] ty \in {"dateTime", "dateTimeStamp"} -> {"2001-10-26T21:32:52"}
    [] ty = "gYear" -> {"", "2001", "-2001"} [] ty = "gYearMonth" -> {"2001-1", "2001-10"} [] ty = "gMonth" -> {"", "--10"} [] ty = "gMonthDay" -> {"--1", "--10-31"} [] ty = "gDay" -> {"", "---31"}
    [] ty = "duration" -> {"", "P", "PT", "P1YT"}
    [] OTHER -> {""}
Keys(ty) == CASE ty \in IntTypes -> {"+", "-", "0", "1", "9", "_", " ", "."}
              [] ty = "decimal" -> {"+", "-", "0", "1", ".", "e", "_", "E"}
              [] ty = "duration" -> {"P", "T", "Y", "M", "D", "H", "S", "1", "0", ".", "-"}
              [] OTHER -> {"+", "-", "0", "1", "4", ":", "Z", "."}
Length == IF Deep THEN (IF Prop = "P14" THEN 5 ELSE IF Prop = "P13" THEN 6 ELSE 5) ELSE (IF Prop \in {"P13", "P14"} THEN 4 ELSE 3)
EditKeys(ty) == Digits \cup {" ", "-", "+", ":", ".", "T", "Z", "z", "t", "P", "S", "M", "_", "e", "é", "٣", "\n"}
VARIABLES ty, mode, s, left
vars == <<ty, mode, s, left>>
MaxEdits == IF "EDITS" \in DOMAIN IOEnv THEN (IF IOEnv.EDITS = "3" THEN 3 ELSE 2) ELSE 1
Init ==
  /\ ty \in Types
  /\ \/ mode = "field" /\ s \in Texts(ty) /\ left = 0
     \/ mode = "value" /\ s \in Values(ty) /\ left = 0
     \/ mode = "type" /\ s \in Typed(ty) /\ left = Length
     \/ mode = "edit" /\ s \in Seeds(ty) /\ left = MaxEdits
SimInit == /\ ty \in Types /\ mode = "edit" /\ left = MaxEdits
           /\ s \in Seeds(ty)
Type == /\ mode = "type" /\ left > 0
        /\ \E c \in Keys(ty) : s' = s \o c
        /\ left' = left - 1 /\ UNCHANGED <<ty, mode>>
Edited(t, i, c) ==                         \* the texts one edit at position i away
  {To(t, i - 1) \o c \o From(t, i), To(t, i - 1)}
  \cup (IF i > Len(t) THEN {} ELSE {To(t, i - 1) \o c \o From(t, i + 1), To(t, i - 1) \o From(t, i + 1), To(t, i) \o From(t, i)})
  \cup (IF i >= Len(t) THEN {} ELSE {To(t, i - 1) \o Ch(t, i + 1) \o Ch(t, i) \o From(t, i + 2)})
Edit == /\ mode = "edit" /\ left > 0
        /\ \E i \in 1..(Len(s) + 1), c \in EditKeys(ty) : s' \in Edited(s, i, c)
        /\ left' = left - 1 /\ UNCHANGED <<ty, mode>>
SimEdit == /\ mode = "edit" /\ left > 0
           /\ \E i \in {RandomElement(1..(Len(s) + 1))}, c \in {RandomElement(EditKeys(ty))} : s' \in Edited(s, i, c)
           /\ left' = left - 1 /\ UNCHANGED <<ty, mode>>
Next == Type \/ Edit
Emit == PrintT("@@" \o ToJson([ty |-> ty, m |-> mode = "value", x |-> s]))

(* The specification is consistent: every value has a text, which means that  *)
(* value and no other.                                                       *)
WriteMeans ==
  mode = "value" /\ ty # "decimal" /\ Constructible(ty, s) =>
    LET m == Meaning(ty, Write(ty, s)) IN m.v = "open" \/ m = Good(s)
(* What a text means can be written, and that means the same.                *)
MeaningWrites ==
  mode # "value" => LET m == Meaning(ty, s) IN m.v = "ok" => Meaning(ty, Write(ty, m.val)) = m
=============================================================================
