------------------------------ MODULE Naming ------------------------------
(* How XML names become Rust identifiers.                                   *)
(*                                                                          *)
(* XML names are strings over letters, digits, '_', '-', '.' and ':'; of    *)
(* the letters beyond ASCII some small, capital and caseless ones (of two   *)
(* and three bytes in UTF-8) stand for all.                                 *)
(* An XML name is turned into a snake_case identifier (fields, modules,     *)
(* functions) or a PascalCase one (types, variants), and is escaped with a  *)
(* leading '_' when it would be a Rust keyword or start with a digit.       *)
EXTENDS Naturals, Sequences

LowerChars == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o",
                "p","q","r","s","t","u","v","w","x","y","z">>
UpperChars == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O",
                "P","Q","R","S","T","U","V","W","X","Y","Z">>
DigitChars == <<"0","1","2","3","4","5","6","7","8","9">>

Lowers == {LowerChars[i] : i \in 1..26}
Uppers == {UpperChars[i] : i \in 1..26}
Digits == {DigitChars[i] : i \in 1..10}
XLowers == {"é", "ü", "ж"}
XUppers == {"É", "Ж"}
XOthers == {"日"}
XLetters == XLowers \cup XUppers \cup XOthers
AlnumA == Lowers \cup Uppers \cup Digits
Alnums == AlnumA \cup XLetters
Bytes(c) == IF c \in XOthers THEN 3 ELSE IF c \in XLetters THEN 2 ELSE 1

LowerTable == [c \in Uppers |-> LowerChars[CHOOSE i \in 1..26 : UpperChars[i] = c]]
UpperTable == [c \in Lowers |-> UpperChars[CHOOSE i \in 1..26 : LowerChars[i] = c]]
ToLower(c) == IF c \in Uppers THEN LowerTable[c] ELSE c
ToUpper(c) == IF c \in Lowers THEN UpperTable[c] ELSE c

Ch(s, i) == SubSeq(s, i, i)                      \* i-th character, 1-based

(* Position of the first ':' in s, 0 if there is none.                      *)
RECURSIVE ColonFrom(_, _)
ColonFrom(s, i) == IF i > Len(s) THEN 0
                   ELSE IF Ch(s, i) = ":" THEN i ELSE ColonFrom(s, i + 1)
Colon(s) == ColonFrom(s, 1)
RECURSIVE LastColonFrom(_, _)
LastColonFrom(s, i) == IF i = 0 THEN 0
                       ELSE IF Ch(s, i) = ":" THEN i ELSE LastColonFrom(s, i - 1)

HasPrefix(q) == Colon(q) > 0
Prefix(q)    == IF HasPrefix(q) THEN SubSeq(q, 1, Colon(q) - 1) ELSE ""
Local(q)     == SubSeq(q, Colon(q) + 1, Len(q))
AfterLastColon(q) == SubSeq(q, LastColonFrom(q, Len(q)) + 1, Len(q))

RECURSIVE TrimRight(_)
TrimRight(s) == IF s = "" THEN s
                ELSE IF Ch(s, Len(s)) \in Alnums THEN s
                ELSE TrimRight(SubSeq(s, 1, Len(s) - 1))

(* A word starts at a capital (or a digit) next to a small letter.  The     *)
(* neighbours are looked up at the position in bytes.                       *)
RECURSIVE BytesBefore(_, _)
BytesBefore(s, i) == IF i <= 1 THEN 0 ELSE Bytes(Ch(s, i - 1)) + BytesBefore(s, i - 1)
IsLower(c) == c \in Lowers \/ c \in XLowers
NextToLower(s, i) == LET k == BytesBefore(s, i) + 1 IN
                     \/ k < Len(s) /\ IsLower(Ch(s, k + 1))
                     \/ k > 1 /\ k - 1 <= Len(s) /\ IsLower(Ch(s, k - 1))

RECURSIVE SnakeFrom(_, _, _, _)
SnakeFrom(s, n, i, first) ==       \* s: the name, n: its length without trailing separators
  IF i > n THEN ""
  ELSE LET c == Ch(s, i) IN
    IF c \notin Alnums
    THEN (IF first THEN "" ELSE "_") \o SnakeFrom(s, n, i + 1, TRUE)
    ELSE (IF ~first /\ c \notin Lowers /\ NextToLower(s, i) THEN "_" ELSE "")
         \o ToLower(c) \o SnakeFrom(s, n, i + 1, FALSE)
Snake(s) == SnakeFrom(s, Len(TrimRight(s)), 1, TRUE)

(* found: a letter or digit was seen; new: a word starts here;              *)
(* lastLow: the last character that was not the start of a word was small.  *)
RECURSIVE PascalFrom(_, _, _, _, _)
PascalFrom(s, i, found, new, lastLow) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i) IN
    IF c \notin Alnums
    THEN PascalFrom(s, i + 1, found, IF found THEN TRUE ELSE new, lastLow)
    ELSE IF c \in Digits
    THEN c \o PascalFrom(s, i + 1, TRUE, TRUE, lastLow)
    ELSE IF new \/ (lastLow /\ c \in Uppers \cup XUppers)
    THEN ToUpper(c) \o PascalFrom(s, i + 1, TRUE, FALSE, lastLow)
    ELSE ToLower(c) \o PascalFrom(s, i + 1, TRUE, FALSE, IsLower(c))
Pascal(s) == PascalFrom(TrimRight(s), 1, FALSE, TRUE, FALSE)

Keywords == {
  "abstract", "alignof", "as", "async", "await", "become", "box", "break", "const",
  "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn",
  "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut",
  "offsetof", "override", "priv", "proc", "pub", "pure", "ref", "return", "Self",
  "self", "sizeof", "static", "struct", "super", "trait", "true", "try", "type",
  "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield"}

(* The words that really cannot be identifiers (Rust 2018/2021).            *)
ReservedWords == {
  "abstract", "as", "async", "await", "become", "box", "break", "const", "continue",
  "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if",
  "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override",
  "priv", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait",
  "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where",
  "while", "yield"}

Sanitize(s) == IF s # "" /\ (Ch(s, 1) \in Digits \/ s \in Keywords) THEN "_" \o s ELSE s

FieldIdent(name) == Sanitize(Snake(AfterLastColon(name)))
ModIdent(name)   == FieldIdent(name)
RECURSIVE OnlyAscii(_)                    \* names of types have no other letters
OnlyAscii(s) == IF s = "" THEN s
                ELSE (IF Ch(s, 1) \in XLetters THEN "" ELSE Ch(s, 1)) \o OnlyAscii(SubSeq(s, 2, Len(s)))
TypeIdent(name)  == Sanitize(OnlyAscii(Pascal(Local(name))))

(* The module that stands for a namespace prefix.                           *)
RECURSIVE Underscored(_)
Underscored(s) == IF s = "" THEN s
                  ELSE (IF Ch(s, 1) \in Alnums \cup {"_"} THEN Ch(s, 1) ELSE "_")
                       \o Underscored(SubSeq(s, 2, Len(s)))
ModuleOf(prefix) == Sanitize(Underscored(prefix))

LegalIdent(s) ==
  /\ s # ""
  /\ Ch(s, 1) \notin Digits
  /\ \A i \in 1..Len(s) : Ch(s, i) \in Alnums \cup {"_"}
  /\ s \notin ReservedWords
  /\ s # "_"
=============================================================================
