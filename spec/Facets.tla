------------------------------- MODULE Facets ------------------------------
(* Which values the facets of a restriction allow.                           *)
(*                                                                           *)
(* Allowed(base, facets, x): "yes", "no", or "open" (no order between the     *)
(* value and a bound).  Values and bounds are texts; they are compared by     *)
(* what they mean (Lexical), exactly: numbers by their digits, moments by     *)
(* their place in time, durations from the four moments of XML Schema.        *)
EXTENDS Lexical

Machine == [byte |-> <<"-128", "127">>, short |-> <<"-32768", "32767">>,
            int |-> <<"-2147483648", "2147483647">>,
            long |-> <<"-9223372036854775808", "9223372036854775807">>,
            unsignedByte |-> <<"0", "255">>, unsignedShort |-> <<"0", "65535">>,
            unsignedInt |-> <<"0", "4294967295">>, unsignedLong |-> <<"0", "18446744073709551615">>]
WholeBases == IntTypes \cup DOMAIN Machine
Floats == {"float", "double"}
NumBases == WholeBases \cup Floats \cup {"decimal"}
TimeBases == {"dateTime", "dateTimeStamp"}
TextBases == {"string", "token", "normalizedString", "NMTOKEN", "Name", "NCName", "ID", "IDREF", "language", "anyURI"}
ListBases == {"NMTOKENS", "IDREFS", "ENTITIES"}

(* --------------------------------------------------------------- numbers *)
RECURSIVE Bare(_)
Bare(s) == IF s # "" /\ Ch(s, 1) = " " THEN Bare(From(s, 2))
           ELSE IF s # "" /\ Ch(s, Len(s)) = " " THEN Bare(To(s, Len(s) - 1)) ELSE s
(* Canonical: <<sign, digits before, digits after the point>>.               *)
Exact(s) == DecimalMeaning(s).val
(* Order of digits after the point.                                          *)
FracLess(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
                  IN LessFrom(a \o Zeros(n - Len(a)), b \o Zeros(n - Len(b)), 1)
SizeLess(a, b) == Less(a[2], b[2]) \/ (a[2] = b[2] /\ FracLess(a[3], b[3]))
ExactLess(a, b) == IF a[1] # b[1] THEN a[1] = "-" ELSE IF a[1] = "-" THEN SizeLess(b, a) ELSE SizeLess(a, b)
NumOrder(a, b) ==
  IF a = b THEN "eq"
  ELSE IF a = "INF" \/ b = "-INF" THEN "gt"
  ELSE IF b = "INF" \/ a = "-INF" THEN "lt"
  ELSE LET x == Exact(a)
           y == Exact(b)
       IN IF x = y THEN "eq" ELSE IF ExactLess(x, y) THEN "lt" ELSE "gt"

(* ------------------------------------------------------- moments in time *)
(* Days of the common calendar; years begin in March.                        *)
DayNumber(y, m, d) ==
  LET yy == IF m > 2 THEN y ELSE y - 1
      mm == (m + 9) % 12
  IN 365 * yy + yy \div 4 - yy \div 100 + yy \div 400 + (153 * mm + 2) \div 5 + d
SNum(s) == IF Negative(s) THEN -Num(Unsigned(s)) ELSE Num(s)
(* <<day, second of the day, fraction>> in UTC.                              *)
Moment(s) ==
  LET v == Meaning("dateTime", s).val
      sec == 3600 * Num(v[4]) + 60 * Num(v[5]) + Num(v[6]) - 60 * SNum(v[8])
  IN <<DayNumber(SNum(v[1]), Num(v[2]), Num(v[3])) + (sec \div 86400), sec % 86400, v[7]>>
MomentOrder(a, b) ==
  LET x == Moment(a)
      y == Moment(b)
  IN IF x = y THEN "eq"
     ELSE IF x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ FracLess(x[3], y[3])))) THEN "lt" ELSE "gt"

(* ---------------------------------------------------------------- lengths *)
(* of time: <<months, days, seconds>>, each with the sign of the whole; small *)
TimeSpan(s) ==
  LET d == DurationMeaning(s).val
      g == IF d[1] = "-" THEN -1 ELSE 1
      sec == 3600 * Num(d[5]) + 60 * Num(d[6]) + Num(d[7])
  IN <<g * (12 * Num(d[2]) + Num(d[3])), g * Num(d[4]), g * sec>>
Starts == {<<1696, 9>>, <<1697, 2>>, <<1903, 3>>, <<1903, 7>>}
EndOf(start, t) ==                         \* <<day, second>>
  LET m == 12 * start[1] + start[2] - 1 + t[1]
      day == DayNumber(m \div 12, (m % 12) + 1, 1) + t[2]
  IN <<day + (t[3] \div 86400), t[3] % 86400>>
SpanOrder(a, b) ==
  LET x == TimeSpan(a)
      y == TimeSpan(b)
      o(s) == LET p == EndOf(s, x)
                  q == EndOf(s, y)
              IN IF p = q THEN "eq" ELSE IF p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]) THEN "lt" ELSE "gt"
      all == {o(s) : s \in Starts}
  IN IF Cardinality(all) = 1 THEN CHOOSE r \in all : TRUE ELSE "none"

Order(base, a, b) == CASE base \in NumBases -> NumOrder(a, b)
                       [] base \in TimeBases -> MomentOrder(a, b)
                       [] base = "duration" -> SpanOrder(a, b)

(* ------------------------------------------------------------------ sizes *)
RECURSIVE Words(_)
Words(s) == LET t == Bare(s)
                sp == Index(t, 1, " ")
            IN IF t = "" THEN 0 ELSE IF sp = 0 THEN 1 ELSE 1 + Words(From(t, sp))
Size(base, x) == ToString(IF base \in ListBases THEN Words(x) ELSE Len(x))

(* ----------------------------------------------------------------- facets *)
Bounds == {"minInclusive", "maxInclusive", "minExclusive", "maxExclusive"}
Sizes == {"length", "minLength", "maxLength"}
Lower == {"minInclusive", "minExclusive"}
Upper == {"maxInclusive", "maxExclusive"}
YesNo(b) == IF b THEN "yes" ELSE "no"
One(base, f, x) ==
  IF f.f \in Bounds
  THEN LET o == Order(base, x, Bare(f.v)) IN
       IF o = "none" THEN "open"
       ELSE CASE f.f = "minInclusive" -> YesNo(o # "lt")
              [] f.f = "maxInclusive" -> YesNo(o # "gt")
              [] f.f = "minExclusive" -> YesNo(o = "gt")
              [] f.f = "maxExclusive" -> YesNo(o = "lt")
  ELSE IF f.f \in Sizes
  THEN LET n == Size(base, x)
           v == Strip(Bare(f.v))
       IN CASE f.f = "length" -> YesNo(n = v)
            [] f.f = "minLength" -> YesNo(~Less(n, v))
            [] f.f = "maxLength" -> YesNo(~Less(v, n))
  ELSE "yes"                               \* other facets, that allow the values used here
Allowed(base, facets, x) ==
  LET all == {One(base, facets[i], x) : i \in 1..Len(facets)} IN
  IF "no" \in all THEN "no" ELSE IF "open" \in all THEN "open" ELSE "yes"
=============================================================================
