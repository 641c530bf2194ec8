-------------------------------- MODULE Text --------------------------------
(* Text handling needed to read header fields, URLs and media types.         *)
(* Strings are TLA+ strings; TLC lets them be sliced and concatenated like    *)
(* sequences.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

UpperLetters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O",
                  "P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerLetters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o",
                  "p","q","r","s","t","u","v","w","x","y","z">>
UpperSet == {UpperLetters[i] : i \in 1..26}
LowerSet == {LowerLetters[i] : i \in 1..26}
Alpha == UpperSet \union LowerSet
LowerMap == [c \in UpperSet |-> LowerLetters[CHOOSE i \in 1..26 : UpperLetters[i] = c]]
LowerCh(c) == IF c \in UpperSet THEN LowerMap[c] ELSE c

RECURSIVE LowerPart(_, _, _)
LowerPart(s, a, b) ==
  IF a > b THEN ""
  ELSE IF a = b THEN LowerCh(Ch(s, a))
  ELSE LET m == (a + b) \div 2 IN LowerPart(s, a, m) \o LowerPart(s, m + 1, b)
Lower(s) == IF \E i \in 1..Len(s) : Ch(s, i) \in UpperSet THEN LowerPart(s, 1, Len(s)) ELSE s
SameFold(a, b) == Lower(a) = Lower(b)

DigitVal == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Digits == DOMAIN DigitVal

AllIn(s, set) == \A i \in 1..Len(s) : Ch(s, i) \in set

RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0
            ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]
\* numbers of any size, as texts without leading zeros; no number at all is below every one
IsNumber(s) == s # "" /\ AllIn(s, Digits)
RECURSIVE Numeral(_)
Numeral(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Numeral(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE SameOrBefore(_, _)
SameOrBefore(a, b) ==
  \/ a = ""
  \/ DigitVal[Ch(a, 1)] < DigitVal[Ch(b, 1)]
  \/ Ch(a, 1) = Ch(b, 1) /\ SameOrBefore(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ SameOrBefore(a, b))
\* a decimal number that fits comfortably into TLC's integers
IsNat(s) == Len(s) \in 1..8 /\ AllIn(s, Digits)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

\* position of the first (last) occurrence of the character, 0 if there is none
IndexFrom(s, c, from) ==
  LET J == {j \in from..Len(s) : Ch(s, j) = c} IN IF J = {} THEN 0 ELSE MinOf(J)
Index(s, c) == IndexFrom(s, c, 1)
LastIndex(s, c) ==
  LET J == {j \in 1..Len(s) : Ch(s, j) = c} IN IF J = {} THEN 0 ELSE MaxOf(J)
Has(s, c) == Index(s, c) # 0
\* position of the first occurrence of the two character string, 0 if none
Index2(s, cc) ==
  LET J == {j \in 1..(Len(s) - 1) : SubSeq(s, j, j + 1) = cc} IN IF J = {} THEN 0 ELSE MinOf(J)

Blank == {" ", "\t"}
Trim(s) ==
  LET I == {i \in 1..Len(s) : Ch(s, i) \notin Blank}
  IN IF I = {} THEN "" ELSE SubSeq(s, MinOf(I), MaxOf(I))

RECURSIVE Squeeze(_)
Squeeze(s) == \* without any blanks
  LET i == {j \in 1..Len(s) : Ch(s, j) \in Blank}
  IN IF i = {} THEN s
     ELSE Upto(s, MinOf(i) - 1) \o Squeeze(From(s, MinOf(i) + 1))

\* split at each separator outside of a quoted string
RECURSIVE SplitScan(_, _, _, _, _, _)
SplitScan(s, sep, i, start, quoted, acc) ==
  IF i > Len(s) THEN Append(acc, From(s, start))
  ELSE LET c == Ch(s, i) IN
    IF quoted /\ c = "\\" THEN SplitScan(s, sep, i + 2, start, quoted, acc)
    ELSE IF c = "\"" THEN SplitScan(s, sep, i + 1, start, ~quoted, acc)
    ELSE IF ~quoted /\ c = sep
         THEN SplitScan(s, sep, i + 1, i + 1, quoted, Append(acc, SubSeq(s, start, i - 1)))
    ELSE SplitScan(s, sep, i + 1, start, quoted, acc)
Split(s, sep) == IF Has(s, sep) THEN SplitScan(s, sep, 1, 1, FALSE, <<>>) ELSE <<s>>

RECURSIVE Unquote(_)
Unquote(s) == \* the content of a quoted string without its surrounding quotes
  LET i == Index(s, "\\")
  IN IF i = 0 THEN s ELSE Upto(s, i - 1) \o Ch(s, i + 1) \o Unquote(From(s, i + 2))

TokenChars == Alpha \union Digits \union
  {"!","#","$","%","&","'","*","+","-",".","^","_","`","|","~"}
IsToken(s) == s # "" /\ AllIn(s, TokenChars)

RECURSIVE FlatMap(_, _)
FlatMap(f(_), seq) == IF seq = <<>> THEN <<>> ELSE f(Head(seq)) \o FlatMap(f, Tail(seq))
MapSeq(f(_), seq) == [i \in 1..Len(seq) |-> f(seq[i])]
KeepSeq(p(_), seq) == SelectSeq(seq, p)
Range(seq) == {seq[i] : i \in 1..Len(seq)}
=============================================================================
