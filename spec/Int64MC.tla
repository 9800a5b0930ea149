------------------------------- MODULE Int64MC -------------------------------
(* The laws of two's complement arithmetic, for all pairs of operands of     *)
(* BASE^NL, a size that TLC can enumerate.                                   *)
EXTENDS Integers, Sequences, TLC
BASE == 4
NL == 3
I == INSTANCE Int64 WITH BASE <- BASE, NL <- NL
W == BASE ^ NL                 \* 64: 6-bit ints
Wrap(n) == ((n + W \div 2) % W) - W \div 2
Ints == (-(W \div 2))..(W \div 2 - 1)
TDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
VARIABLES a, b
Init == a \in Ints /\ b \in Ints
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
F(n) == I!FromInt(n)
T(l) == I!ToInt(l)
RECURSIVE BitAnd(_, _, _)
BitAnd(x, y, n) == IF n = 0 THEN 0 ELSE (IF x % 2 = 1 /\ y % 2 = 1 THEN 1 ELSE 0) + 2 * BitAnd(x \div 2, y \div 2, n - 1)
Decimal == I!Dec(F(a)) = ToString(a) /\ I!FromDec(ToString(a)) = F(a)
RoundTrip == T(F(a)) = a
Adds == T(I!AddL(F(a), F(b))) = Wrap(a + b)
Subs == T(I!SubL(F(a), F(b))) = Wrap(a - b)
Muls == T(I!MulL(F(a), F(b))) = Wrap(a * b)
Negs == T(I!NegateL(F(a))) = Wrap(-a)
Divs == b # 0 => T(I!DivL(F(a), F(b))) = Wrap(TDiv(a, b))
Mods == b # 0 => T(I!ModL(F(a), F(b))) = a - b * TDiv(a, b)
Cmps == I!CmpL(F(a), F(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
Ands == T(I!AndL(F(a), F(b))) = Wrap(BitAnd(a % W, b % W, 6))
Ors == T(I!OrL(F(a), F(b))) = Wrap(-1 - T(I!AndL(F(-1 - a), F(-1 - b))))
Xors == T(I!XorL(F(a), F(b))) = T(I!SubL(I!OrL(F(a), F(b)), I!AndL(F(a), F(b))))
Shls == b \in 0..5 => T(I!ShlL(F(a), b)) = Wrap(a * 2 ^ b)
Shrs == b \in 0..5 => T(I!ShrL(F(a), b)) = a \div 2 ^ b
==============================================================================
