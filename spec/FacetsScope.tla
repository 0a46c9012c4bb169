----------------------------- MODULE FacetsScope ---------------------------
(* Restrictions of built-in types, and values around their bounds.           *)
EXTENDS Facets, Json, IOUtils
CONSTANT Deep

InBase(base, x) ==
  CASE base \in IntTypes -> IntMeaning(base, x).v = "ok"
    [] base \in DOMAIN Machine -> /\ IntMeaning("integer", x).v = "ok"
                                  /\ NumOrder(x, Machine[base][1]) # "lt" /\ NumOrder(x, Machine[base][2]) # "gt"
                                  /\ (x # "" /\ Ch(x, 1) = "-" => Machine[base][1] # "0")
    [] base = "decimal" -> DecimalMeaning(x).v = "ok"
    [] base \in Floats -> x \in {"INF", "-INF"} \/ DecimalMeaning(x).v = "ok"
    [] OTHER -> TRUE
WholeBounds == {"0000000000000005", "-100", "-5", "0", "1", "+5", "100", "0127"} \cup
               (IF Deep THEN {"-32768", "32767", "255", "-1", "7", "00", "65535", "2147483647"} ELSE {})
HugeBounds(base) == IF base \in {"integer", "nonNegativeInteger", "positiveInteger"} THEN {"18446744073709551616"}
                    ELSE IF base \in {"nonPositiveInteger", "negativeInteger"} THEN {"-18446744073709551616"}
                    ELSE IF base \in DOMAIN Machine THEN {Machine[base][1], Machine[base][2]} ELSE {}
Whole == {"-101", "-100", "-99", "-6", "-5", "-4", "-1", "0", "1", "2", "4", "5", "+6", "005", "99", "100", "101", "126", "127", "128",
          "-128", "-127", "254", "255", "256", "32766", "32767", "-32768", "-32767", "65534", "65535", "2147483646", "2147483647", "-2147483648", "-2147483647",
          "4294967294", "4294967295", "9223372036854775806", "9223372036854775807", "-9223372036854775808", "-9223372036854775807",
          "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "-18446744073709551616", "-18446744073709551617", "-18446744073709551615"}
Moments == {"2000-01-01T00:00:00Z", "2004-02-29T23:59:59.5+05:30"} \cup (IF Deep THEN {"1999-12-31T23:00:00-01:00", "2000-01-01T00:00:00.000000001Z"} ELSE {})
Spans == {"PT0S", "P1M", "PT36H", "-P1D"} \cup (IF Deep THEN {"P1Y2M", "-P1M", "PT90M", "P30D"} ELSE {})
BoundsOf(base) ==
  CASE base \in WholeBases -> {b \in WholeBounds \cup HugeBounds(base) : InBase(base, b)}
    [] base = "decimal" -> {"-0.5", "0.50", "5", "10.001", "0000005.000000000000000000000000000000"} \cup (IF Deep THEN {"+.25", "-100.", "0", "99999999999999999999.1"} ELSE {})
    [] base \in Floats -> {"-0.5", "0.25", "5"} \cup (IF Deep THEN {"100", "-8.5", "0"} ELSE {})
    [] base \in TimeBases -> Moments
    [] base = "duration" -> Spans
ValuesOf(base) ==
  CASE base \in WholeBases -> {x \in Whole : InBase(base, x)}
    [] base = "decimal" -> {"-0.51", "-0.5", "-.50", "-0.499999999999999999999", "0", "-0", "0.49", "0.5", "0.51", "+0.25", "5.0", "005", "4.99999999999999999999999",
                            "5.00000000000000000001", "10.0009", "10.001", "10.0010", "10.0011", "-100", "-99.9", "-100.1", "99999999999999999999.1", "99999999999999999999.2", "1", "-1"}
    [] base \in Floats -> {"-0.625", "-0.5", "-0.375", "0", "0.125", "0.25", "0.375", "4.875", "5", "5.0", "5.125", "100", "99.5", "100.5", "-8.5", "-8.625", "-8.375", "INF", "-INF"}
    [] base \in TimeBases -> {"2000-01-01T00:00:00Z", "2000-01-01T00:00:00.000000001Z", "1999-12-31T23:59:59.999Z", "2000-01-01T05:30:00+05:30", "1999-12-31T23:00:00-01:00",
                              "2000-01-01T00:00:00+00:01", "2000-01-01T00:00:00-00:01", "2004-02-29T23:59:59.5+05:30", "2004-02-29T18:29:59.5Z", "2004-02-29T18:29:59.4Z",
                              "2004-02-29T18:29:59.6Z", "2004-03-01T00:00:00+05:30", "2004-02-29T23:59:59.5Z", "2004-02-29T23:59:59.5+14:00", "1970-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "0001-01-01T00:00:00Z"}
    [] base = "duration" -> {"-P2D", "-P1D", "-PT24H", "-PT23H", "PT0S", "-PT0S", "PT1S", "-PT1S", "P27D", "P28D", "P30D", "P31D", "P32D", "P1M", "P2M", "P12M", "P1Y", "P14M", "P1Y2M", "P13M", "P15M",
                             "PT36H", "P1DT12H", "PT35H59M59S", "PT37H", "P1DT12H1S", "-P1M", "-P27D", "-P32D", "PT90M", "PT1H30M", "PT5400S", "PT89M", "PT5401S", "-P1Y", "P29D", "P100Y"}
LengthsOf == {"0", "1", "3", "003", "0000000000000000000003", " 3 ", "8", "12345"} \cup (IF Deep THEN {"2", "256", "4294967296", "18446744073709551616"} ELSE {"4294967297"})
Text(n) == SubSeq("abcdefghijklmnop", 1, n)
RECURSIVE Rep(_)
Rep(n) == IF n = 0 THEN "" ELSE IF n % 2 = 0 THEN LET h == Rep(n \div 2) IN h \o h ELSE "x" \o Rep(n - 1)
TextsOf(base) ==
  IF base \in ListBases THEN {"a", "a b", "ab cde  f", "a b c d", "a a a a a a a", "a b c d e f g h", "a b c d e f g h i", "abcdefgh"}
  ELSE {Text(n) : n \in 1..8} \cup (IF base = "language" THEN {} ELSE {Text(9), Rep(256), Rep(255)})
       \cup (IF base \in {"string", "token", "normalizedString", "anyURI"} THEN {""} ELSE {}) \cup (IF base = "string" THEN {Rep(12344), Rep(12345), Rep(12346), "a b", "   ", " ab", "a  b  cd", "\t\n\t"} ELSE {})

F(f, v) == [f |-> f, v |-> v]
NotAbove(base, a, b) == Order(base, Bare(a), Bare(b)) \in {"lt", "eq"}
BoundSeqs(base) ==
  LET bs == BoundsOf(base)
      pairs == {p \in bs \X bs : NotAbove(base, p[1], p[2])}
      legal(l, u, p) == (l = "minExclusive" \/ u = "maxExclusive") => Order(base, Bare(p[1]), Bare(p[2])) = "lt"
  IN {<<F(k, b)>> : k \in Bounds, b \in bs}
     \cup UNION {{<<F(l, p[1]), F(u, p[2])>>, <<F(u, p[2]), F(l, p[1])>>} :
                   <<l, u, p>> \in {t \in Lower \X Upper \X pairs : legal(t[1], t[2], t[3])}}
SizeSeqs ==
  LET le(a, b) == ~Less(Strip(Bare(b)), Strip(Bare(a))) IN
  {<<F(k, v)>> : k \in Sizes, v \in LengthsOf}
  \cup {<<F("minLength", a), F("maxLength", b)>> : <<a, b>> \in {p \in LengthsOf \X LengthsOf : le(p[1], p[2])}}
  \cup {<<F("maxLength", b), F("minLength", a)>> : <<a, b>> \in {p \in LengthsOf \X LengthsOf : le(p[1], p[2])}}
(* Facets of other kinds, that allow all the values.                         *)
Between3(s, x) == {<<x>> \o s, s \o <<x>>} \cup (IF Len(s) = 2 THEN {<<s[1], x, s[2]>>} ELSE {})
Idle(base) == {F("pattern", "[^!]*")} \cup (IF base \in WholeBases THEN {F("totalDigits", "50"), F("fractionDigits", "0")} ELSE {})
              \cup (IF base = "decimal" THEN {F("fractionDigits", "50")} ELSE {}) \cup (IF base = "string" THEN {F("whiteSpace", "preserve")} ELSE {})
FewBases == {"int", "unsignedByte", "decimal", "string"}
Plain(base) == IF base \in TextBases \cup ListBases THEN SizeSeqs ELSE BoundSeqs(base)
Small(s) == \A i \in 1..Len(s) : s[i].v \in {"-5", "0", "1", "+5", "5", "3", "8", "-0.5", "10.001"}
Spaced(s) == [s EXCEPT ![1].v = " " \o @ \o "  "]
FacetSeqs(base) ==
  {<<>>} \cup Plain(base) \cup UNION {{<<x>>} : x \in Idle(base)}
  \cup (IF base \in FewBases THEN UNION {Between3(s, x) : s \in {t \in Plain(base) : Small(t)}, x \in Idle(base)} \cup {Spaced(s) : s \in {t \in Plain(base) : Small(t)}} ELSE {})
Bases == NumBases \cup TimeBases \cup TextBases \cup ListBases \cup {"duration"}
Places(base, fs) == IF base \in FewBases /\ Small(fs) THEN {"top", "el", "in"} ELSE {"top"}

VARIABLES base, facets, place, seen
Init == /\ base \in Bases /\ facets \in FacetSeqs(base) /\ place \in Places(base, facets) /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ UNCHANGED <<base, facets, place>>
Values == IF base \in TextBases \cup ListBases THEN TextsOf(base) ELSE ValuesOf(base)

(* What a user of facets expects, whatever their meaning above.               *)
Swap(f) == CASE f = "minInclusive" -> "maxExclusive" [] f = "maxExclusive" -> "minInclusive"
             [] f = "maxInclusive" -> "minExclusive" [] f = "minExclusive" -> "maxInclusive"
Expected ==
  /\ \A x \in Values : facets = <<>> => Allowed(base, facets, x) = "yes"
  /\ \* their order does not matter, and each one more allows less
     \A x \in Values : Len(facets) > 1 =>
       LET rev == [i \in 1..Len(facets) |-> facets[Len(facets) + 1 - i]] IN
       /\ Allowed(base, rev, x) = Allowed(base, facets, x)
       /\ Allowed(base, facets, x) = "yes" => Allowed(base, Tail(facets), x) = "yes"
  /\ \* opposite bounds part the values in two
     (Len(facets) = 1 /\ facets[1].f \in Bounds) =>
       \A x \in Values : LET a == Allowed(base, facets, x)
                             b == Allowed(base, <<[facets[1] EXCEPT !.f = Swap(@)]>>, x)
                         IN a = "open" \/ {a, b} = {"yes", "no"}
  /\ \* the bound itself is in exactly when inclusive
     (Len(facets) = 1 /\ facets[1].f \in Bounds) =>
       Allowed(base, facets, Bare(facets[1].v)) = YesNo(facets[1].f \in {"minInclusive", "maxInclusive"})
Emit == PrintT("@@" \o ToJson([base |-> base, facets |-> facets, place |-> place, values |-> Values]))
Check == seen => (Expected = TRUE /\ Emit)
=============================================================================
