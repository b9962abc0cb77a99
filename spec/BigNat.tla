------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as sequences of digits to base 2^15, least
   significant first, no zero at the end: TLC's integers have 32 bits.      *)
EXTENDS Integers, Sequences
LOCAL B == 32768

RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Big(n \div B)

LOCAL Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE AddFrom(_, _, _, _)
LOCAL AddFrom(a, b, i, carry) ==
    IF i > Max(Len(a), Len(b)) THEN Big(carry)
    ELSE LET s == Dig(a, i) + Dig(b, i) + carry
         IN  <<s % B>> \o AddFrom(a, b, i + 1, s \div B)
BAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE ScaleFrom(_, _, _, _)
LOCAL ScaleFrom(a, k, i, carry) ==
    IF i > Len(a) THEN Big(carry)
    ELSE LET s == a[i] * k + carry
         IN  <<s % B>> \o ScaleFrom(a, k, i + 1, s \div B)
LOCAL Scale(a, k) == IF k = 0 THEN <<>> ELSE ScaleFrom(a, k, 1, 0)   \* k < B

RECURSIVE MulFrom(_, _, _)
LOCAL MulFrom(a, b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET rest == MulFrom(a, b, i + 1)
         IN  BAdd(Scale(a, b[i]), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
BMul(a, b) == MulFrom(a, b, 1)

RECURSIVE LessFrom(_, _, _)
LOCAL LessFrom(a, b, i) ==
    IF i = 0 THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, Len(a))
BLeq(a, b) == a = b \/ BLess(a, b)

RECURSIVE BProdFrom(_, _)
LOCAL BProdFrom(s, i) == IF i > Len(s) THEN Big(1) ELSE BMul(s[i], BProdFrom(s, i + 1))
BProd(s) == BProdFrom(s, 1)

RECURSIVE BRavelFrom(_, _, _, _)
LOCAL BRavelFrom(idx, ext, i, acc) ==
    IF i > Len(ext) THEN acc
    ELSE BRavelFrom(idx, ext, i + 1, BAdd(BMul(acc, ext[i]), idx[i]))
\* row-major number of the digit vector idx; ext[1] is not used
BRavel(idx, ext) == BRavelFrom(idx, ext, 1, <<>>)
=============================================================================
