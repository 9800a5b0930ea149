-------------------------------- MODULE Int64 --------------------------------
(***************************************************************************)
(* Two's complement integers, as sequences of NL digits in base BASE, the  *)
(* least significant first (BASE = 256, NL = 8 for the ints of YASL; the   *)
(* laws in Int64MC are checked for all operands of a smaller size).        *)
(* TLC has 32-bit integers: no intermediate result here is beyond them.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
CONSTANTS BASE, NL

Digits == 1..NL
Zero == [i \in Digits |-> 0]
One == [i \in Digits |-> IF i = 1 THEN 1 ELSE 0]
NegL(a) == a[NL] >= BASE \div 2
NotL(a) == [i \in Digits |-> BASE - 1 - a[i]]

(* fold over the digits, from the least significant one: Op(carry, i) is the column sum *)
RECURSIVE Carry(_, _, _, _)
Carry(Col(_), i, c, acc) ==
    IF i > NL THEN acc
    ELSE LET s == Col(i) + c IN Carry(Col, i + 1, s \div BASE, Append(acc, s % BASE))
AddL(a, b) == Carry(LAMBDA i : a[i] + b[i], 1, 0, <<>>)
NegateL(a) == AddL(NotL(a), One)
SubL(a, b) == AddL(a, NegateL(b))
RECURSIVE Column(_, _, _, _)
Column(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Column(a, b, k, i + 1)
MulL(a, b) == Carry(LAMBDA k : Column(a, b, k, 1), 1, 0, <<>>)
MulSmall(a, d) == Carry(LAMBDA i : a[i] * d, 1, 0, <<>>)

AndL(a, b) == [i \in Digits |-> a[i] & b[i]]
OrL(a, b) == [i \in Digits |-> a[i] | b[i]]
XorL(a, b) == [i \in Digits |-> a[i] ^^ b[i]]

(* unsigned comparison: -1, 0, 1 *)
RECURSIVE CmpU(_, _, _)
CmpU(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpU(a, b, i - 1)
CmpL(a, b) == IF NegL(a) # NegL(b) THEN (IF NegL(a) THEN -1 ELSE 1) ELSE CmpU(a, b, NL)

(* shifts, by bits: BITS bits to a digit *)
BITS == CHOOSE n \in 1..8 : 2 ^ n = BASE
ShlL(a, n) == LET d == n \div BITS  b == 2 ^ (n % BITS) IN MulSmall([i \in Digits |-> IF i <= d THEN 0 ELSE a[i - d]], b)
ShrL(a, n) ==
    LET d == n \div BITS
        b == 2 ^ (n % BITS)
        ext == IF NegL(a) THEN BASE - 1 ELSE 0
        At(i) == IF i > NL THEN ext ELSE a[i]
    IN [i \in Digits |-> (At(i + d) \div b) + ((At(i + d + 1) * (BASE \div b)) % BASE)]

(* unsigned division, a bit at a time from the top *)
TopBit(a) == IF NegL(a) THEN 1 ELSE 0
RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, d, n, q, r) ==
    IF n = 0 THEN <<q, r>>
    ELSE LET r2 == [ShlL(r, 1) EXCEPT ![1] = @ + TopBit(a)]
             ge == TopBit(r) = 1 \/ CmpU(r2, d, NL) >= 0
             q2 == ShlL(q, 1)
         IN DivStep(ShlL(a, 1), d, n - 1, IF ge THEN [q2 EXCEPT ![1] = @ + 1] ELSE q2, IF ge THEN SubL(r2, d) ELSE r2)
DivModU(a, d) == DivStep(a, d, NL * BITS, Zero, Zero)
AbsL(a) == IF NegL(a) THEN NegateL(a) ELSE a
(* truncated; the sign of the remainder is that of a *)
DivL(a, b) == LET q == DivModU(AbsL(a), AbsL(b))[1] IN IF NegL(a) = NegL(b) THEN q ELSE NegateL(q)
ModL(a, b) == LET r == DivModU(AbsL(a), AbsL(b))[2] IN IF NegL(a) THEN NegateL(r) ELSE r

(* division of an unsigned number by a small one: <<quotient, remainder>> *)
RECURSIVE DivSmall(_, _, _, _, _)
DivSmall(a, d, i, q, r) ==
    IF i = 0 THEN <<q, r>>
    ELSE LET x == r * BASE + a[i] IN DivSmall(a, d, i - 1, [q EXCEPT ![i] = x \div d], x % d)
DivModSmall(a, d) == DivSmall(a, d, NL, Zero, 0)

(* the natural number n, if it is small enough *)
RECURSIVE FromNat(_, _)
FromNat(n, k) == IF k = 0 THEN <<>> ELSE <<n % BASE>> \o FromNat(n \div BASE, k - 1)
FromInt(n) == IF n < 0 THEN NegateL(FromNat(-n, NL)) ELSE FromNat(n, NL)
RECURSIVE ToNat(_, _)
ToNat(a, i) == IF i > NL THEN 0 ELSE a[i] + BASE * ToNat(a, i + 1)
(* decimal digits *)
DigitStr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitNo(c) == CHOOSE i \in 1..10 : DigitStr[i] = c
RECURSIVE FromBase(_, _, _, _)
FromBase(s, d, i, acc) ==     \* the digits s from i on, in base d
    IF i > Len(s) THEN acc ELSE FromBase(s, d, i + 1, AddL(MulSmall(acc, d), FromNat(s[i], NL)))
FromDec(s) ==
    LET neg == SubSeq(s, 1, 1) = "-"
        d == [i \in 1..(Len(s) - (IF neg THEN 1 ELSE 0)) |-> DigitNo(SubSeq(s, i + (IF neg THEN 1 ELSE 0), i + (IF neg THEN 1 ELSE 0))) - 1]
        a == FromBase(d, 10, 1, Zero)
    IN IF neg THEN NegateL(a) ELSE a
RECURSIVE DecU(_)
DecU(a) == LET r == DivModSmall(a, 10) IN (IF r[1] = Zero THEN "" ELSE DecU(r[1])) \o DigitStr[r[2] + 1]
Dec(a) == IF NegL(a) THEN "-" \o DecU(NegateL(a)) ELSE DecU(a)
ToInt(a) == IF NegL(a) THEN -ToNat(NegateL(a), 1) ELSE ToNat(a, 1)     \* only for numbers within the range of TLC
===============================================================================
