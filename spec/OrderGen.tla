------------------------------- MODULE OrderGen ------------------------------
(* Pairs of texts whose values are compared: one value, then a second that is *)
(* chosen freely from the same texts.  IOEnv.DEEP widens the choice.          *)
EXTENDS Order, Json, IOUtils
Deep == IOEnv.DEEP = "1"

Big == {"9", "10", "99", "100", "255", "256", "65536", "9223372036854775807", "9223372036854775808", "18446744073709551616",
        "18446744073709551617", "99999999999999999999", "100000000000000000000", "340282366920938463463374607431768211456"}
Wholes == {"0", "1", "2", "+1", "007", "+0"} \cup Big
Texts(ty) ==
  CASE ty \in {"integer"} -> Wholes \cup {"-" \o b : b \in Big \cup {"0", "1", "2", "01"}}
    [] ty = "nonNegativeInteger" -> Wholes
    [] ty = "positiveInteger" -> Wholes \ {"0", "+0"}
    [] ty = "nonPositiveInteger" -> {"-" \o b : b \in Big \cup {"0", "1", "2", "01"}} \cup {"0"}
    [] ty = "negativeInteger" -> {"-" \o b : b \in Big \cup {"1", "2", "01"}}
    [] ty = "decimal" -> {g \o i \o f : g \in {"", "-"}, i \in {"0", "1", "9", "10", "12", "99999999999999999999"}, f \in {"", ".0", ".1", ".10", ".09", ".5", ".000000000000000000001"}}
    [] ty = "date" -> {d \o z : d \in {"2000-01-01", "2000-01-02", "1999-12-31", "2000-02-01", "0001-01-01", "9999-12-31"}, z \in {"", "Z", "+00:00", "+01:00", "-01:00"}}
    [] ty = "time" -> {d \o z : d \in {"00:00:00", "00:00:01", "00:01:00", "01:00:00", "00:00:00.5", "00:00:00.50", "23:59:59.999999999"}, z \in {"", "Z", "+00:00", "+01:00", "-01:00"}}
    [] ty \in {"dateTime", "dateTimeStamp"} ->
         {d \o t \o z : d \in {"2000-01-01", "1999-12-31", "2000-02-29", "2000-03-01"} \cup (IF Deep THEN {"1900-02-28", "1900-03-01", "0001-01-01", "9999-12-31"} ELSE {"9999-12-31"}),
                        t \in {"T00:00:00", "T23:30:00", "T23:30:00.5", "T00:30:00.000000001", "T23:59:59"},
                        z \in {"Z", "+00:30", "-00:30", "+14:00", "-10:00"} \cup (IF ty = "dateTime" THEN {""} ELSE {})}
    [] ty = "gYear" -> {y \o z : y \in {"0001", "0002", "2000", "2001", "-0001", "12000"}, z \in {"", "Z", "+00:00", "+01:00", "-01:00"}}
    [] ty = "gYearMonth" -> {y \o m \o z : y \in {"0001", "2000", "-2000", "12000"}, m \in {"-01", "-02", "-12"}, z \in {"", "Z", "+01:00", "-01:00"}}
    [] ty = "gMonth" -> {"--" \o m \o z : m \in {"01", "02", "10", "12"}, z \in {"", "Z", "+00:00", "+01:00", "-01:00"}}
    [] ty = "gMonthDay" -> {"--" \o m \o "-" \o d \o z : m \in {"01", "02", "12"}, d \in {"01", "02", "12"}, z \in {"", "Z", "+01:00", "-01:00"}}
    [] ty = "gDay" -> {"---" \o d \o z : d \in {"01", "02", "10", "31"}, z \in {"", "Z", "+00:00", "+01:00", "-01:00"}}
    [] ty = "duration" ->
         {g \o "P" \o p : g \in {"", "-"},
           p \in {"0D", "1Y", "12M", "13M", "11M", "1Y1M", "365D", "366D", "364D", "367D", "1M", "27D", "28D", "29D", "30D", "31D", "32D", "2M", "58D", "59D", "60D", "61D", "62D", "63D",
                  "3M", "89D", "92D", "93D", "5M", "153D", "154D", "4Y", "1461D", "1460D", "400Y", "146097D", "146096D", "100Y", "36524D", "36525D", "300Y", "109573D", "109572D",
                  "1D", "T24H", "T23H", "T25H", "T1440M", "T1439M", "T86400S", "T86399S", "T86400.5S", "T60S", "T1M", "T60.000000001S", "T0.5S", "T0.25S", "T1H", "T3600S", "T59M60S", "T59M59.999S",
                  "1DT1H1M1S", "T25H1M1S", "1M1D", "1M2D", "1MT24H", "30DT23H", "30DT24H", "31DT1H", "27DT23H59M59.999S", "28DT0.001S"}
                 \cup (IF Deep THEN {ToString(m) \o "M" : m \in 4..60} \cup {ToString(d) \o "D" : d \in {x + e : x \in {120, 150, 181, 184, 212, 215, 243, 273, 304, 334, 730, 1095, 1826}, e \in -2..3}} ELSE {})}
         \cup {"P18446744073709551615D", "PT18446744073709551615H", "P18446744073709551615M", "P1000000000Y"}

(* Months against about as many days as they have from each of the starts.   *)
Months == 1..(IF Deep THEN 4800 ELSE 400)
DaysOf(m) == {EndOf(st, <<m, 0, 0>>)[1] - EndOf(st, <<0, 0, 0>>)[1] : st \in Starts}
Near(m) == {"P" \o ToString(d + e) \o "D" : d \in DaysOf(m), e \in {-1, 0, 1}} \cup {"P" \o ToString(d) \o "DT1S" : d \in DaysOf(m)}

VARIABLES ty, a, b, m
vars == <<ty, a, b, m>>
Init == \/ ty \in Ordered \cup Equal /\ a \in Texts(ty) /\ b = "" /\ m = 0
        \/ ty = "duration" /\ b = "" /\ m \in Months /\ a = "P" \o ToString(m) \o "M"
Choose == b = "" /\ b' \in (IF m = 0 THEN Texts(ty) ELSE Near(m)) /\ UNCHANGED <<ty, a, m>>
Next == Choose
Emit == b # "" => PrintT("@@" \o ToJson([ty |-> ty, a |-> a, b |-> b]))

(* The specification is consistent: a value has the order with itself that is *)
(* called equal, and two values the opposite order the other way round.       *)
Opposite(o) == CASE o = "lt" -> "gt" [] o = "gt" -> "lt" [] OTHER -> o
Reflexive == b = a => Compared(ty, a, b) = "eq"
Mirrored == b # "" => Compared(ty, b, a) = Opposite(Compared(ty, a, b))
(* Where there is an order it goes through a third value.                    *)
Thirds == CASE ty = "duration" -> {"P1M", "P30D", "PT24H", "P1Y", "-P1D"} [] OTHER -> {a}
Transitive == b # "" => \A c \in Thirds :
                 Compared(ty, a, c) = "lt" /\ Compared(ty, c, b) = "lt" => Compared(ty, a, b) = "lt"
=============================================================================
