------------------------------ MODULE Lexical ------------------------------
(* The lexical spaces of the runtime types, and the values they denote.      *)
(*                                                                           *)
(* Meaning(ty, s) = [v, val]: v is "ok" (val is the value), "bad" (s is in    *)
(* no case a text of the type) or "open" (no promise: years beyond four       *)
(* digits of dates, the end of the day as 24:00:00, more precision than the   *)
(* value types hold).                                                        *)
(* A value is a sequence of strings, one per field; numbers are canonical     *)
(* (no sign on zero, no leading zeros), fractions lose trailing zeros, a      *)
(* timezone is "none" or its offset in minutes.                              *)
(* Write(ty, val) is a text of the value; all arithmetic on numbers that may  *)
(* be large is on their digits.                                              *)
EXTENDS Naming, Integers, FiniteSets, TLC

DateTypes == {"date", "time", "dateTime", "dateTimeStamp", "gYear", "gYearMonth", "gMonth", "gMonthDay", "gDay"}
IntTypes == {"integer", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger"}
NumTypes == IntTypes \cup {"decimal"}

DigitValue == [c \in Digits |-> (CHOOSE i \in 1..10 : DigitChars[i] = c) - 1]
From(s, i) == SubSeq(s, i, Len(s))
To(s, i) == SubSeq(s, 1, i)
AllDigits(s) == \A i \in 1..Len(s) : Ch(s, i) \in Digits
IsNum(s) == s # "" /\ AllDigits(s)
RECURSIVE Num(_)
Num(s) == IF s = "" THEN 0 ELSE 10 * Num(To(s, Len(s) - 1)) + DigitValue[Ch(s, Len(s))]
RECURSIVE Strip(_)                       \* canonical digits
Strip(s) == IF s = "" THEN "0" ELSE IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Strip(From(s, 2)) ELSE s
RECURSIVE Trim(_)                        \* without trailing zeros
Trim(s) == IF s = "" THEN s ELSE IF Ch(s, Len(s)) = "0" THEN Trim(To(s, Len(s) - 1)) ELSE s
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Pad(s, n) == Zeros(n - Len(s)) \o s
RECURSIVE DigitsEnd(_, _)                \* the first position from i on without a digit
DigitsEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Digits THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE Index(_, _, _)                 \* of a character from i on, 0 if nowhere
Index(s, i, c) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Index(s, i + 1, c)

(* Arithmetic on canonical digits.                                           *)
RECURSIVE AddC(_, _, _)
AddC(a, b, c) ==
  IF a = "" /\ b = "" THEN (IF c = 0 THEN "" ELSE ToString(c))
  ELSE LET d(x) == IF x = "" THEN 0 ELSE DigitValue[Ch(x, Len(x))]
           r(x) == IF x = "" THEN "" ELSE To(x, Len(x) - 1)
           t == d(a) + d(b) + c
       IN AddC(r(a), r(b), t \div 10) \o ToString(t % 10)
Add(a, b) == Strip(AddC(a, b, 0))
RECURSIVE MulC(_, _, _)
MulC(a, k, c) == IF a = "" THEN (IF c = 0 THEN "" ELSE ToString(c))
                 ELSE LET t == DigitValue[Ch(a, Len(a))] * k + c
                      IN MulC(To(a, Len(a) - 1), k, t \div 10) \o ToString(t % 10)
Mul(a, k) == Strip(MulC(a, k, 0))        \* k small
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == /\ i <= Len(a)
                     /\ \/ DigitValue[Ch(a, i)] < DigitValue[Ch(b, i)]
                        \/ (Ch(a, i) = Ch(b, i) /\ LessFrom(a, b, i + 1))
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessFrom(a, b, 1))
MaxU64 == "18446744073709551615"

(* ------------------------------------------------------------- timezones *)
Bad == [v |-> "bad", val |-> <<>>]
Open == [v |-> "open", val |-> <<>>]
Good(val) == [v |-> "ok", val |-> val]

(* The timezone at the end of s: [rest, tz, v].                              *)
Zone(s) ==
  LET n == Len(s) IN
  IF n > 0 /\ Ch(s, n) = "Z" THEN [rest |-> To(s, n - 1), tz |-> "0", v |-> "ok"]
  ELSE IF /\ n >= 6 /\ Ch(s, n - 5) \in {"+", "-"} /\ Ch(s, n - 2) = ":"
          /\ IsNum(SubSeq(s, n - 4, n - 3)) /\ IsNum(SubSeq(s, n - 1, n))
  THEN LET h == Num(SubSeq(s, n - 4, n - 3))
           m == Num(SubSeq(s, n - 1, n))
           all == 60 * h + m
       IN [rest |-> To(s, n - 6),
           tz |-> (IF Ch(s, n - 5) = "-" /\ all > 0 THEN "-" ELSE "") \o ToString(all),
           v |-> IF m <= 59 /\ all <= 840 THEN "ok" ELSE "bad"]
  ELSE [rest |-> s, tz |-> "none", v |-> "ok"]
WithZone(s, body(_)) ==                  \* body: the meaning of what stands before
  LET z == Zone(s)
      b == body(z.rest)
  IN IF z.v = "bad" \/ b.v = "bad" THEN Bad
     ELSE IF b.v = "open" THEN Open
     ELSE Good(Append(b.val, z.tz))

(* ----------------------------------------------------------------- fields *)
Between(s, lo, hi) == Len(s) = 2 /\ AllDigits(s) /\ Num(s) >= lo /\ Num(s) <= hi
TwoDigits(s) == ToString(Num(s))
Unsigned(s) == IF s # "" /\ Ch(s, 1) = "-" THEN From(s, 2) ELSE s
Negative(s) == s # "" /\ Ch(s, 1) = "-"
(* Years of the g-types: at least four digits, no leading zeros beyond four, *)
(* no year zero.                                                             *)
YearOf(s) ==
  LET u == Unsigned(s) IN
  IF ~AllDigits(u) \/ Len(u) < 4 \/ u = "0000" THEN Bad
  ELSE IF Len(u) > 4 /\ Ch(u, 1) = "0" THEN Bad
  ELSE IF Len(u) > 9 THEN Open
  ELSE Good(<<(IF Negative(s) THEN "-" ELSE "") \o Strip(u)>>)
(* Years of dates: likewise, but with a promise for four digits only.         *)
DateYear(s) ==
  LET u == Unsigned(s) IN
  IF u = "0000" THEN Open
  ELSE LET y == YearOf(s) IN IF y.v = "ok" /\ Len(u) > 4 THEN Open ELSE y
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLength == <<31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>

DateBody(b) ==
  LET n == Len(b)
      y == To(b, n - 6)
      m == SubSeq(b, n - 4, n - 3)
      d == SubSeq(b, n - 1, n)
  IN IF n < 10 THEN Bad
     ELSE IF Ch(b, n - 5) # "-" \/ Ch(b, n - 2) # "-" THEN Bad
     ELSE IF ~Between(m, 1, 12) \/ ~Between(d, 1, 31) \/ DateYear(y).v = "bad" THEN Bad
     ELSE IF Num(d) > MonthLength[Num(m)] THEN Bad
     ELSE IF DateYear(y).v = "open" THEN Open
     ELSE IF Num(m) = 2 /\ Num(d) = 29 /\ Negative(y) THEN Open
     ELSE IF Num(m) = 2 /\ Num(d) = 29 /\ ~Leap(Num(y)) THEN Bad
     ELSE Good(<<DateYear(y).val[1], TwoDigits(m), TwoDigits(d)>>)
TimeBody(b) ==
  LET f == From(b, 10) IN
  IF Len(b) < 8 THEN Bad
  ELSE IF Ch(b, 3) # ":" \/ Ch(b, 6) # ":" THEN Bad
  ELSE IF Len(b) > 8 /\ (Ch(b, 9) # "." \/ ~IsNum(f)) THEN Bad
  ELSE IF SubSeq(b, 1, 8) = "24:00:00" /\ Trim(f) = "" THEN Open
  ELSE IF ~Between(SubSeq(b, 1, 2), 0, 23) \/ ~Between(SubSeq(b, 4, 5), 0, 59) \/ ~Between(SubSeq(b, 7, 8), 0, 59) THEN Bad
  ELSE IF Len(f) > 9 THEN Open
  ELSE Good(<<TwoDigits(SubSeq(b, 1, 2)), TwoDigits(SubSeq(b, 4, 5)), TwoDigits(SubSeq(b, 7, 8)), Trim(f)>>)
DateTimeBody(b) ==
  LET t == Index(b, 1, "T") IN
  IF t = 0 THEN Bad
  ELSE LET d == DateBody(To(b, t - 1))
           h == TimeBody(From(b, t + 1))
       IN IF d.v = "bad" \/ h.v = "bad" THEN Bad
          ELSE IF d.v = "open" \/ h.v = "open" \/ Negative(b) THEN Open
          ELSE Good(d.val \o h.val)
YearMonthBody(b) ==
  LET n == Len(b)
      y == YearOf(To(b, n - 3))
  IN IF n < 7 THEN Bad
     ELSE IF Ch(b, n - 2) # "-" \/ ~Between(From(b, n - 1), 1, 12) \/ y.v = "bad" THEN Bad
     ELSE IF y.v = "open" THEN Open
     ELSE Good(<<y.val[1], TwoDigits(From(b, n - 1))>>)
MonthBody(b) == IF Len(b) = 4 /\ To(b, 2) = "--" /\ Between(From(b, 3), 1, 12) THEN Good(<<TwoDigits(From(b, 3))>>) ELSE Bad
DayBody(b) == IF Len(b) = 5 /\ To(b, 3) = "---" /\ Between(From(b, 4), 1, 31) THEN Good(<<TwoDigits(From(b, 4))>>) ELSE Bad
MonthDayBody(b) ==
  IF /\ Len(b) = 7 /\ To(b, 2) = "--" /\ Ch(b, 5) = "-"
     /\ Between(SubSeq(b, 3, 4), 1, 12) /\ Between(SubSeq(b, 6, 7), 1, 31)
  THEN IF Num(SubSeq(b, 6, 7)) <= MonthLength[Num(SubSeq(b, 3, 4))]
       THEN Good(<<TwoDigits(SubSeq(b, 3, 4)), TwoDigits(SubSeq(b, 6, 7))>>) ELSE Bad
  ELSE Bad

(* ---------------------------------------------------------------- numbers *)
Sign(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN Ch(s, 1) ELSE ""
Magnitude(s) == From(s, 1 + Len(Sign(s)))
InRange(ty, neg, zero) ==
  CASE ty = "integer" -> TRUE
    [] ty = "nonNegativeInteger" -> zero \/ ~neg
    [] ty = "positiveInteger" -> ~zero /\ ~neg
    [] ty = "nonPositiveInteger" -> zero \/ neg
    [] ty = "negativeInteger" -> ~zero /\ neg
Signed(neg, digits) == (IF neg /\ digits # "0" THEN "-" ELSE "") \o digits
IntMeaning(ty, s) ==
  LET m == Magnitude(s)
      c == Strip(m)
  IN IF ~IsNum(m) \/ ~InRange(ty, Sign(s) = "-", c = "0") THEN Bad
     ELSE Good(<<Signed(Sign(s) = "-", c)>>)
(* The value of a decimal: [sign, digits, fraction].                         *)
DecimalOf(neg, i, f) ==
  LET ii == Strip(i)
      ff == Trim(f)
  IN <<IF neg /\ ~(ii = "0" /\ ff = "") THEN "-" ELSE "", ii, ff>>
DecimalMeaning(s) ==
  LET m == Magnitude(s)
      p == Index(m, 1, ".")
      i == IF p = 0 THEN m ELSE To(m, p - 1)
      f == IF p = 0 THEN "" ELSE From(m, p + 1)
  IN IF ~AllDigits(i) \/ ~AllDigits(f) \/ i \o f = "" THEN Bad
     ELSE Good(DecimalOf(Sign(s) = "-", i, f))
(* From an unscaled number and a scale (the fields of the value type).       *)
Scaled(n, scale) ==
  LET neg == Negative(n)
      k == Num(Unsigned(scale))
      u == Unsigned(n) \o (IF Negative(scale) THEN Zeros(k) ELSE "")
      w == Pad(u, k + 1)
  IN IF Negative(scale) THEN DecimalOf(neg, u, "")
     ELSE DecimalOf(neg, To(w, Len(w) - k), From(w, Len(w) - k + 1))

(* -------------------------------------------------------------- durations *)
(* The parts of s with these designators, in order: [v, ns] with "" for      *)
(* parts that are absent.                                                    *)
RECURSIVE Parts(_, _)
Parts(s, ds) ==
  IF ds = <<>> THEN [v |-> IF s = "" THEN "ok" ELSE "bad", ns |-> <<>>]
  ELSE LET e == DigitsEnd(s, 1)
           f == IF Head(ds) = "S" /\ e > 1 /\ e <= Len(s) /\ Ch(s, e) = "." THEN DigitsEnd(s, e + 1) ELSE e
           here == e > 1 /\ f <= Len(s) /\ Ch(s, f) = Head(ds) /\ (f # e => f > e + 1)
           r == Parts(IF here THEN From(s, f + 1) ELSE s, Tail(ds))
       IN [v |-> r.v, ns |-> <<IF here THEN To(s, f - 1) ELSE "">> \o r.ns]
Seconds(n) ==                            \* canonical
  LET p == Index(n, 1, ".")
      i == Strip(IF p = 0 THEN n ELSE To(n, p - 1))
      f == IF p = 0 THEN "" ELSE Trim(From(n, p + 1))
  IN IF f = "" THEN i ELSE i \o "." \o f
SecInt(x) == LET p == Index(x, 1, ".") IN IF p = 0 THEN x ELSE To(x, p - 1)
SecFrac(x) == LET p == Index(x, 1, ".") IN IF p = 0 THEN "" ELSE From(x, p + 1)
(* As many digits as the binary number of seconds holds for certain.         *)
Precise(x) == Len(Strip(SecInt(x) \o SecFrac(x))) <= 15 /\ Len(SecFrac(x)) <= 30
DurationMeaning(s) ==
  LET u == Unsigned(s)
      t == Index(u, 1, "T")
      date == Parts(IF t = 0 THEN From(u, 2) ELSE SubSeq(u, 2, t - 1), <<"Y", "M", "D">>)
      time == Parts(IF t = 0 THEN "" ELSE From(u, t + 1), <<"H", "M", "S">>)
      all == date.ns \o time.ns
      some(ns) == \E i \in 1..Len(ns) : ns[i] # ""
      vals == [i \in 1..5 |-> Strip(all[i])]
      sec == Seconds(all[6])
  IN IF u = "" THEN (IF s = "" THEN Open ELSE Bad)     \* "" is accepted, a known finding
     ELSE IF Ch(u, 1) # "P" \/ date.v = "bad" \/ time.v = "bad" \/ ~some(all) THEN Bad
     ELSE IF t # 0 /\ ~some(time.ns) THEN Bad
     ELSE IF \E i \in 1..5 : Less(MaxU64, vals[i]) THEN Bad
     ELSE IF Less(MaxU64, SecInt(sec)) \/ ~Precise(sec) THEN Open
     ELSE Good(<<IF Negative(s) THEN "-" ELSE "", vals[1], vals[2], vals[3], vals[4], vals[5], sec>>)
ZeroDuration(d) == \A i \in 2..7 : d[i] = "0"
(* The same length of time as seconds and fraction; <<>> if there is none;    *)
(* "open": beyond the precision of the seconds, or minus zero.               *)
StdOf(d) ==
  LET hours == Add(Mul(d[4], 24), d[5])
      minutes == Add(Mul(hours, 60), d[6])
      secs == Add(Mul(minutes, 60), SecInt(d[7]))
      f == SecFrac(d[7])
  IN IF d[2] # "0" \/ d[3] # "0" THEN <<>>
     ELSE IF d[1] = "-" THEN (IF ZeroDuration(d) THEN <<"open">> ELSE <<>>)
     ELSE IF Len(SecInt(d[7])) > 15 THEN <<"open">>
     ELSE IF Less(MaxU64, secs) THEN <<>>
     ELSE IF Len(f) > 9 \/ (f # "" /\ Len(SecInt(d[7])) > 6) THEN <<"open">>
     ELSE <<secs, f>>

(* ---------------------------------------------------------------- meaning *)
Meaning(ty, s) ==
  CASE ty = "date" -> WithZone(s, DateBody)
    [] ty = "time" -> WithZone(s, TimeBody)
    [] ty \in {"dateTime", "dateTimeStamp"} ->
         LET m == WithZone(s, DateTimeBody) IN
         IF m.v = "bad" THEN m
         ELSE IF Zone(s).tz # "none" THEN m
         ELSE IF ty = "dateTimeStamp" THEN Bad
         ELSE IF m.v = "ok" THEN Good([m.val EXCEPT ![8] = "0"]) ELSE m     \* counts as UTC
    [] ty = "gYear" -> WithZone(s, YearOf)
    [] ty = "gYearMonth" -> WithZone(s, YearMonthBody)
    [] ty = "gMonth" -> WithZone(s, MonthBody)
    [] ty = "gMonthDay" -> WithZone(s, MonthDayBody)
    [] ty = "gDay" -> WithZone(s, DayBody)
    [] ty \in IntTypes -> IntMeaning(ty, s)
    [] ty = "decimal" -> DecimalMeaning(s)
    [] ty = "duration" -> DurationMeaning(s)

(* ---------------------------------------------------------------- writing *)
WriteZone(t) == IF t = "none" THEN ""
                ELSE LET n == Num(Unsigned(t)) IN
                     (IF Negative(t) THEN "-" ELSE "+") \o Pad(ToString(n \div 60), 2) \o ":" \o Pad(ToString(n % 60), 2)
WriteYear(y) == (IF Negative(y) THEN "-" ELSE "") \o Pad(Unsigned(y), 4)
WriteDate(x) == WriteYear(x[1]) \o "-" \o Pad(x[2], 2) \o "-" \o Pad(x[3], 2)
WriteTime(x) == Pad(x[1], 2) \o ":" \o Pad(x[2], 2) \o ":" \o Pad(x[3], 2) \o (IF x[4] = "" THEN "" ELSE "." \o x[4])
Part(n, d) == IF n = "0" THEN "" ELSE n \o d
Write(ty, x) ==
  CASE ty = "date" -> WriteDate(x) \o WriteZone(x[4])
    [] ty = "time" -> WriteTime(x) \o WriteZone(x[5])
    [] ty \in {"dateTime", "dateTimeStamp"} -> WriteDate(x) \o "T" \o WriteTime(SubSeq(x, 4, 7)) \o WriteZone(x[8])
    [] ty = "gYear" -> WriteYear(x[1]) \o WriteZone(x[2])
    [] ty = "gYearMonth" -> WriteYear(x[1]) \o "-" \o Pad(x[2], 2) \o WriteZone(x[3])
    [] ty = "gMonth" -> "--" \o Pad(x[1], 2) \o WriteZone(x[2])
    [] ty = "gMonthDay" -> "--" \o Pad(x[1], 2) \o "-" \o Pad(x[2], 2) \o WriteZone(x[3])
    [] ty = "gDay" -> "---" \o Pad(x[1], 2) \o WriteZone(x[2])
    [] ty \in IntTypes -> x[1]
    [] ty = "decimal" -> x[1] \o x[2] \o (IF x[3] = "" THEN "" ELSE "." \o x[3])
    [] ty = "duration" ->
         LET t == Part(x[5], "H") \o Part(x[6], "M") \o Part(x[7], "S") IN
         IF ZeroDuration(x) THEN x[1] \o "PT0S"
         ELSE x[1] \o "P" \o Part(x[2], "Y") \o Part(x[3], "M") \o Part(x[4], "D") \o (IF t = "" THEN "" ELSE "T" \o t)

(* What constructing a value from these fields gives: TRUE if it is one.     *)
Constructible(ty, x) ==
  CASE ty = "gYear" -> x[1] # "0"
    [] ty = "gYearMonth" -> x[1] # "0" /\ ~Negative(x[2]) /\ Num(x[2]) \in 1..12
    [] ty = "gMonth" -> ~Negative(x[1]) /\ Num(x[1]) \in 1..12
    [] ty = "gDay" -> ~Negative(x[1]) /\ Num(x[1]) \in 1..31
    [] ty = "gMonthDay" -> /\ ~Negative(x[1]) /\ Num(x[1]) \in 1..12
                           /\ ~Negative(x[2]) /\ Num(x[2]) \in 1..31
                           /\ Num(x[2]) <= MonthLength[Num(x[1])]
    [] OTHER -> TRUE
(* Parts of a value that have types of their own (in the order of the         *)
(* conversions of the code).                                                 *)
PartsOf(ty, x) ==
  CASE ty = "date" -> SubSeq(x, 1, 3)
    [] ty = "time" -> SubSeq(x, 1, 4)
    [] ty \in {"dateTime", "dateTimeStamp"} \cup IntTypes -> x
    [] ty = "gYearMonth" -> <<<<x[1], x[3]>>, <<x[2], x[3]>>>>
    [] ty = "gMonthDay" -> <<<<x[1], x[3]>>, <<x[2], x[3]>>>>
    [] OTHER -> <<>>
=============================================================================
