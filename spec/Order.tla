--------------------------------- MODULE Order -------------------------------
(* How two values of a runtime type compare: by what their texts mean.       *)
(* "lt", "eq", "gt"; "none" where XML Schema leaves two durations unordered;  *)
(* "ne" for values that are not equal, of a type without an order; "open"     *)
(* where nothing is said (a date in two timezones; numbers beyond the checker)*)
EXTENDS Facets

Ordered == IntTypes \cup {"decimal", "dateTime", "dateTimeStamp", "duration"}
Equal == {"date", "time", "gYear", "gYearMonth", "gMonth", "gMonthDay", "gDay"}

(* A length of time <<months, days, seconds, nanoseconds>>; the last in       *)
(* 0..999999999.                                                             *)
Exactly(s) ==
  LET d == DurationMeaning(s).val
      g == IF d[1] = "-" THEN -1 ELSE 1
      f == SecFrac(d[7])
      nano == g * Num(f \o Zeros(9 - Len(f)))
      sec == g * (3600 * Num(d[5]) + 60 * Num(d[6]) + Num(SecInt(d[7])))
  IN IF nano < 0 THEN <<g * (12 * Num(d[2]) + Num(d[3])), g * Num(d[4]), sec - 1, nano + 1000000000>>
     ELSE <<g * (12 * Num(d[2]) + Num(d[3])), g * Num(d[4]), sec, nano>>
Small(s) == LET d == DurationMeaning(s).val IN
            \A i \in 2..7 : Len(IF i = 7 THEN SecInt(d[7]) ELSE d[i]) <= 6
LengthOrder(a, b) ==
  LET x == Exactly(a)
      y == Exactly(b)
      o(s) == LET p == EndOf(s, x)
                  q == EndOf(s, y)
              IN IF p[1] # q[1] THEN (IF p[1] < q[1] THEN "lt" ELSE "gt")
                 ELSE IF p[2] # q[2] THEN (IF p[2] < q[2] THEN "lt" ELSE "gt")
                 ELSE IF x[4] # y[4] THEN (IF x[4] < y[4] THEN "lt" ELSE "gt") ELSE "eq"
      all == {o(s) : s \in Starts}
  IN IF Cardinality(all) = 1 THEN CHOOSE r \in all : TRUE ELSE "none"
(* Lengths of one part only, which may be as long as the type allows.        *)
Single(s) == LET d == DurationMeaning(s).val IN Cardinality({i \in 2..7 : d[i] # "0"}) <= 1
DurationOrder(a, b) ==
  IF a = b THEN "eq"
  ELSE IF Small(a) /\ Small(b) THEN LengthOrder(a, b)
  ELSE LET x == DurationMeaning(a).val
           y == DurationMeaning(b).val
       IN IF x = y THEN "eq"
          ELSE IF Single(a) /\ ~Small(a) /\ Small(b) THEN (IF x[1] = "-" THEN "lt" ELSE "gt")
          ELSE IF Single(b) /\ ~Small(b) /\ Small(a) THEN (IF y[1] = "-" THEN "gt" ELSE "lt")
          ELSE "open"

ZonePart(ty, v) == CASE ty = "time" -> v[5] [] ty = "date" -> v[4] [] ty \in {"gYearMonth", "gMonthDay"} -> v[3] [] OTHER -> v[2]
Compared(ty, a, b) ==
  LET x == Meaning(ty, a).val
      y == Meaning(ty, b).val
  IN CASE ty \in IntTypes \cup {"decimal"} -> NumOrder(a, b)
       [] ty \in {"dateTime", "dateTimeStamp"} -> MomentOrder(a, b)
       [] ty = "duration" -> DurationOrder(a, b)
       [] OTHER -> IF x = y THEN "eq" ELSE IF ZonePart(ty, x) = ZonePart(ty, y) THEN "ne" ELSE "open"

(* The value a type begins with: one of its values.                          *)
IsValue(ty, val) == IF ty \in IntTypes THEN InRange(ty, Negative(val[1]), val[1] = "0") ELSE Constructible(ty, val)
=============================================================================
