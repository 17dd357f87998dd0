------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Strings as sequences of one-character strings.                          *)
(*                                                                         *)
(* TLA+ strings are atoms, so a text that the specification looks into is  *)
(* a sequence of characters, e.g. <<"1","9","8","5">>.  A character that   *)
(* is not printable ASCII is written as an escape such as "\u{017f}" (one  *)
(* character, whatever its length in TLA+); a byte that is not UTF-8 is    *)
(* written "\x{ff}".  The driver does this escaping, see /verif/driver.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitValue == [d \in Digits |->
    CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3
      [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7
      [] d = "8" -> 8 [] d = "9" -> 9]
Qualifiers == {"?", "~", "%"}
\* what \s means in the grammar of season words (ASCII whitespace, no vertical tab)
Blanks == {" ", "\\u{0009}", "\\u{000a}", "\\u{000c}", "\\u{000d}"}

\* The character of c at i, or "" outside c.
At(c, i) == IF i >= 1 /\ i <= Len(c) THEN c[i] ELSE ""

IsDigit(c, i) == At(c, i) \in Digits
IsDigitOrX(c, i) == LET x == At(c, i) IN x = "X" \/ x \in Digits

\* w characters from i on are all digits
AreDigits(c, i, w) == \A j \in i..(i + w - 1) : IsDigit(c, j)
AreDigitsOrX(c, i, w) == \A j \in i..(i + w - 1) : IsDigitOrX(c, j)

V(x) == DigitValue[x]

\* The numbers written by the 2 or 4 digits from i on.
Num2(c, i) == 10 * V(c[i]) + V(c[i + 1])
Num4(c, i) == 1000 * V(c[i]) + 100 * V(c[i + 1]) + 10 * V(c[i + 2]) + V(c[i + 3])

\* The part of c from i to j, as a sequence and as a string.
Part(c, i, j) == SubSeq(c, i, j)
RECURSIVE Join(_)
Join(c) == IF c = <<>> THEN "" ELSE Head(c) \o Join(Tail(c))

\* First position >= i that holds x, or Len(c) + 1.
RECURSIVE Find(_, _, _)
Find(c, i, x) == IF i > Len(c) \/ c[i] = x THEN i ELSE Find(c, i + 1, x)

\* First position >= i that does not hold an element of S, or Len(c) + 1.
RECURSIVE Skip(_, _, _)
Skip(c, i, S) == IF i > Len(c) THEN i ELSE IF c[i] \in S THEN Skip(c, i + 1, S) ELSE i

\* Number of x in c.
Count(c, x) == Len(SelectSeq(c, LAMBDA y : y = x))

\* c split at every x.
RECURSIVE SplitFrom(_, _, _)
SplitFrom(c, i, x) ==
    LET j == Find(c, i, x)
    IN IF j > Len(c) THEN <<Part(c, i, Len(c))>>
       ELSE <<Part(c, i, j - 1)>> \o SplitFrom(c, j + 1, x)
Split(c, x) == SplitFrom(c, 1, x)

\* Decimal digits of n >= 0, w of them at least.
DigitOf(n) == DigitSeq[(n % 10) + 1]
Pad2(n) == DigitOf(n \div 10) \o DigitOf(n)
Pad4(n) == Pad2(n \div 100) \o Pad2(n % 100)
\* a year: a sign if it is negative and at least four digits
YearTextAbs(n) == (IF n > 9999 THEN DigitOf(n \div 10000) ELSE "") \o Pad4(n % 10000)
YearText(y) == IF y < 0 THEN "-" \o YearTextAbs(-y) ELSE YearTextAbs(y)
=============================================================================
