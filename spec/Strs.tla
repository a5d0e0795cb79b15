------------------------------- MODULE Strs -------------------------------
(* String helpers.  Bytes are the 256 latin-1 characters; a byte string is  *)
(* a TLA+ string over them (TLC: Len, SubSeq, \o work on strings).          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

Chr(s, i) == SubSeq(s, i, i)
CharSet(s) == { Chr(s, i) : i \in 1 .. Len(s) }
Chars(s) == [ i \in 1 .. Len(s) |-> Chr(s, i) ]

Digits == CharSet("0123456789")
LowerS == "abcdefghijklmnopqrstuvwxyz"
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Alpha == CharSet(LowerS) \cup CharSet(UpperS)
Alnum == Alpha \cup Digits

Tables == ndJsonDeserialize("bytes.json")[1]     \* of the 256 byte values
Bytes == Tables.b                                \* all of them in order, as one string
Byte(n) == SubSeq(Bytes, n + 1, n + 1)
Ord == Tables.ord                                \* the value of a byte
UpperOf == Tables.up                             \* a-z to A-Z, others as they are
UpC(c) == UpperOf[c]
RECURSIVE UpFrom(_, _, _)
UpFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE UpFrom(s, i + 1, acc \o UpC(Chr(s, i)))
Upper(s) == UpFrom(s, 1, "")

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, i, acc) == IF i > Len(ss) THEN acc ELSE JoinFrom(ss, i + 1, acc \o ss[i])
Join(ss) == JoinFrom(ss, 1, "")

(* Position of the first occurrence of character c in s, 0 if none. *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0
                     ELSE IF Chr(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)
Find(s, c) == FindFrom(s, c, 1)

DigitVal(c) == Ord[c] - 48

(* ---- order of console names: ASCII order, except that names equal up to  *)
(* a trailing integer compare by that integer.                              *)
RECURSIVE TrailStart(_, _)
TrailStart(s, i) ==          \* index of the first char of the trailing digits, Len+1 if none
  IF i > 0 /\ Chr(s, i) \in Digits THEN TrailStart(s, i - 1) ELSE i + 1


RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Chr(s, 1) = "0" THEN StripZeros(Drop(s, 1)) ELSE s
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
  IF b = "" THEN FALSE
  ELSE IF a = "" THEN TRUE
  ELSE IF Chr(a, 1) = Chr(b, 1) THEN StrLess(Drop(a, 1), Drop(b, 1))
  ELSE Ord[Chr(a, 1)] < Ord[Chr(b, 1)]
NumLess(a, b) == LET x == StripZeros(a)  y == StripZeros(b)
                 IN IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE StrLess(x, y)
NameLess(a, b) ==
  LET ta == TrailStart(a, Len(a))
      tb == TrailStart(b, Len(b))
  IN IF ta <= Len(a) /\ ta = tb /\ SubSeq(a, 1, ta - 1) = SubSeq(b, 1, tb - 1)
     THEN NumLess(Drop(a, ta - 1), Drop(b, tb - 1))
     ELSE StrLess(a, b)
SortNames(set) == SetToSortSeq(set, NameLess)

(* ---- shell globbing as fnmatch(3) without flags ---- *)
(* A bracket expression starting after "[" at position i of p:              *)
(* [end |-> position after "]" (0 if unterminated), neg, items]             *)
RECURSIVE BrItems(_, _, _)
BrItems(p, i, acc) ==
  IF i > Len(p) THEN [end |-> 0, items |-> acc]
  ELSE LET c0 == Chr(p, i) IN
    IF c0 = "]" /\ acc # {} THEN [end |-> i + 1, items |-> acc]
    ELSE LET esc == c0 = "\\" /\ i < Len(p)
             lo == IF esc THEN Chr(p, i + 1) ELSE c0
             j == IF esc THEN i + 2 ELSE i + 1
         IN IF j + 1 <= Len(p) /\ Chr(p, j) = "-" /\ Chr(p, j + 1) # "]"
            THEN BrItems(p, j + 2, acc \cup { <<lo, Chr(p, j + 1)>> })
            ELSE BrItems(p, j, acc \cup { <<lo, lo>> })
Bracket(p, i) ==
  LET neg == i <= Len(p) /\ Chr(p, i) \in {"!", "^"}
      b == BrItems(p, IF neg THEN i + 1 ELSE i, {})
  IN [end |-> b.end, neg |-> neg, items |-> b.items]
InBr(b, c) == LET hit == \E it \in b.items : Ord[it[1]] <= Ord[c] /\ Ord[c] <= Ord[it[2]]
              IN hit # b.neg

RECURSIVE Glob(_, _, _, _)
Glob(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE LET c == Chr(p, i) IN
    IF c = "*" THEN \E k \in j .. Len(s) + 1 : Glob(p, i + 1, s, k)
    ELSE IF c = "\\" THEN
      IF i = Len(p) THEN FALSE
      ELSE j <= Len(s) /\ Chr(s, j) = Chr(p, i + 1) /\ Glob(p, i + 2, s, j + 1)
    ELSE IF c = "[" THEN
      LET b == Bracket(p, i + 1) IN
        IF b.end = 0 THEN j <= Len(s) /\ Chr(s, j) = "[" /\ Glob(p, i + 1, s, j + 1)
        ELSE j <= Len(s) /\ InBr(b, Chr(s, j)) /\ Glob(p, b.end, s, j + 1)
    ELSE j <= Len(s) /\ (c = "?" \/ c = Chr(s, j)) /\ Glob(p, i + 1, s, j + 1)
GlobMatch(p, s) == Glob(p, 1, s, 1)

(* ---- case-insensitive extended regular expressions, given as syntax      *)
(* trees: <<"c", ch>> <<"any">> <<"cls", neg, set-string>> <<"cat", seq>>   *)
(* <<"alt", seq>> <<"star", r>> <<"plus", r>> <<"opt", r>>                  *)
(* Ends(r, s, i): the positions at which a match of r starting at i can end *)
RECURSIVE Ends(_, _, _), EndsCat(_, _, _, _), Closure(_, _, _, _)
EndsCat(rs, k, s, front) ==
  IF k > Len(rs) THEN front
  ELSE EndsCat(rs, k + 1, s, UNION { Ends(rs[k], s, i) : i \in front })
Closure(r, s, front, seen) ==
  LET new == (UNION { Ends(r, s, i) : i \in front }) \ seen
  IN IF new = {} THEN seen ELSE Closure(r, s, new, seen \cup new)
Ends(r, s, i) ==
  CASE r[1] = "c" -> IF i <= Len(s) /\ UpC(Chr(s, i)) = UpC(r[2]) THEN {i + 1} ELSE {}
    [] r[1] = "any" -> IF i <= Len(s) THEN {i + 1} ELSE {}
    [] r[1] = "cls" -> IF i <= Len(s) /\
                          ((\E x \in CharSet(r[3]) : UpC(x) = UpC(Chr(s, i))) # r[2])
                       THEN {i + 1} ELSE {}
    [] r[1] = "cat" -> EndsCat(r[2], 1, s, {i})
    [] r[1] = "alt" -> UNION { Ends(r[2][k], s, i) : k \in 1 .. Len(r[2]) }
    [] r[1] = "star" -> Closure(r[2], s, {i}, {i})
    [] r[1] = "plus" -> LET f == Ends(r[2], s, i) IN Closure(r[2], s, f, f)
    [] r[1] = "opt" -> {i} \cup Ends(r[2], s, i)
    [] OTHER -> {}
RegexMatch(r, s) == (Len(s) + 1) \in Ends(r, s, 1)

(* ---- text of a duration in seconds ---- *)
DeltaStr(n) ==
  LET sec == n % 60          m == n \div 60
      min == m % 60          h == m \div 60
      hr == h % 24           d == h \div 24
      day == d % 7           w == d \div 7
      wk == w % 52           yr == w \div 52
      S(x, u) == ToString(x) \o u
  IN IF yr > 0 THEN S(yr,"y") \o S(wk,"w") \o S(day,"d") \o S(hr,"h") \o S(min,"m") \o S(sec,"s")
     ELSE IF wk > 0 THEN S(wk,"w") \o S(day,"d") \o S(hr,"h") \o S(min,"m") \o S(sec,"s")
     ELSE IF day > 0 THEN S(day,"d") \o S(hr,"h") \o S(min,"m") \o S(sec,"s")
     ELSE IF hr > 0 THEN S(hr,"h") \o S(min,"m") \o S(sec,"s")
     ELSE IF min > 0 THEN S(min,"m") \o S(sec,"s")
     ELSE S(sec,"s")

(* ---- file names made from console names and devices ---- *)
Base(p) == LET js == { j \in 1 .. Len(p) : Chr(p, j) = "/" } IN IF js = {} THEN p ELSE Drop(p, (CHOOSE j \in js : \A k \in js : k <= j))
SafeC(c) == IF Ord[c] \in 33 .. 126 /\ c # "/" THEN c ELSE "_"
RECURSIVE Safe(_)
Safe(s) == IF s = "" THEN "" ELSE SafeC(Chr(s, 1)) \o Safe(Drop(s, 1))
(* conversion specifiers in the name of a log file *)
RECURSIVE Expand(_, _, _, _)
Expand(s, i, con, fm) ==
  IF i > Len(s) THEN ""
  ELSE IF Chr(s, i) # "%" \/ i = Len(s) THEN Chr(s, i) \o Expand(s, i + 1, con, fm)
  ELSE LET c == Chr(s, i + 1)
           x == CASE c = "N" -> Safe(con.name)
                  [] c = "D" -> Safe(CASE con.kind \in {"serial", "unix"} -> Base(con.dev[1]) [] con.kind = "telnet" -> con.dev[1]
                                       [] OTHER -> "")
                  [] c = "%" -> "%"
                  [] c \in DOMAIN fm -> fm[c]
                  [] OTHER -> "%" \o c
       IN x \o Expand(s, i + 2, con, fm)
=========================================================================
