-------------------------------- MODULE Strs --------------------------------
(***************************************************************************)
(* The methods of str, as functions on sequences of characters.            *)
(***************************************************************************)
EXTENDS Vals, Json

At(h, n, i) == i + Len(n) - 1 <= Len(h) /\ Sub(h, i, i + Len(n) - 1) = n
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

StartsWith(h, n) == At(h, n, 1)
EndsWith(h, n) == Len(n) <= Len(h) /\ Sub(h, Len(h) - Len(n) + 1, Len(h)) = n

(* 0-based index of the first occurrence, -1 if there is none *)
Find(h, n) == LET S == {i \in 1..(Len(h) - Len(n) + 1) : At(h, n, i)}
              IN IF S = {} THEN -1 ELSE MinOf(S) - 1

RECURSIVE CountFrom(_, _, _)
CountFrom(h, n, i) == IF i > Len(h) THEN 0
                      ELSE IF At(h, n, i) THEN 1 + CountFrom(h, n, i + Len(n))
                      ELSE CountFrom(h, n, i + 1)

RECURSIVE ReplaceFrom(_, _, _, _, _)
ReplaceFrom(h, n, r, i, max) ==   \* max < 0: no limit
    IF i > Len(h) THEN ""
    ELSE IF max # 0 /\ At(h, n, i) THEN r \o ReplaceFrom(h, n, r, i + Len(n), max - 1)
    ELSE Ch(h, i) \o ReplaceFrom(h, n, r, i + 1, max)

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(h, n, start, i) ==
    IF i > Len(h) THEN <<StrV(Sub(h, start, Len(h)))>>
    ELSE IF At(h, n, i) THEN <<StrV(Sub(h, start, i - 1))>> \o SplitFrom(h, n, i + Len(n), i + Len(n))
    ELSE SplitFrom(h, n, start, i + 1)

RECURSIVE Words(_, _)
Words(h, i) ==
    IF i > Len(h) THEN <<>>
    ELSE IF IsSpace(Ch(h, i)) THEN Words(h, i + 1)
    ELSE LET S == {j \in i..Len(h) : IsSpace(Ch(h, j))}
             e == IF S = {} THEN Len(h) + 1 ELSE MinOf(S)
         IN <<StrV(Sub(h, i, e - 1))>> \o Words(h, e)

RECURSIVE LTrim(_, _)
LTrim(h, n) == IF StartsWith(h, n) THEN LTrim(Sub(h, Len(n) + 1, Len(h)), n) ELSE h
RECURSIVE RTrim(_, _)
RTrim(h, n) == IF EndsWith(h, n) THEN RTrim(Sub(h, 1, Len(h) - Len(n)), n) ELSE h
RECURSIVE LTrimWs(_)
LTrimWs(h) == IF h # "" /\ IsSpace(Ch(h, 1)) THEN LTrimWs(Sub(h, 2, Len(h))) ELSE h
RECURSIVE RTrimWs(_)
RTrimWs(h) == IF h # "" /\ IsSpace(Ch(h, Len(h))) THEN RTrimWs(Sub(h, 1, Len(h) - 1)) ELSE h

RECURSIVE MapStr(_, _)
MapStr(Op(_), s) == IF s = "" THEN "" ELSE Op(Ch(s, 1)) \o MapStr(Op, Sub(s, 2, Len(s)))
UpperC(c) == IF IsLower(c) THEN Chr(Code(c) - 32) ELSE c
LowerC(c) == IF IsUpper(c) THEN Chr(Code(c) + 32) ELSE c
AllStr(Op(_), s) == \A i \in 1..Len(s) : Op(Ch(s, i))

RECURSIVE RepStr(_, _)
RepStr(s, n) == IF n = 0 THEN "" ELSE s \o RepStr(s, n - 1)

------------------------------------------------------------------------------
(* parsing of numbers: digits d in base b, as str -> value or OOD *)
DigitVal(c) == IF IsDigit(c) THEN Code(c) - 48
               ELSE IF 97 <= Code(c) /\ Code(c) <= 102 THEN Code(c) - 87
               ELSE IF 65 <= Code(c) /\ Code(c) <= 70 THEN Code(c) - 55 ELSE 99
RECURSIVE DropChar(_, _)
DropChar(s, c) == LET h == Len(s) \div 2 IN IF s = "" \/ s = c THEN "" ELSE IF h = 0 THEN s ELSE DropChar(Sub(s, 1, h), c) \o DropChar(Sub(s, h + 1, Len(s)), c)
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(Sub(s, 2, Len(s))) ELSE s
\* the natural number with the digits s0 in base b, OOD if it is beyond the ints
ParseDigits(s0, b, unused) ==
    LET s == NoZeros(s0)
        n == Len(s)
        fits == CASE b = 10 -> n < 19 \/ (n = 19 /\ CmpStr(s, "9223372036854775807") # "gt")
                  [] b = 16 -> n < 16 \/ (n = 16 /\ DigitVal(Ch(s, 1)) < 8)
                  [] b = 2 -> n < 64
    IN IF ~fits THEN OOD ELSE OfLimbs(I64!FromBase([i \in 1..n |-> DigitVal(Ch(s, i))], b, 1, I64!Zero))
DigitsOk(s, b) == s # "" /\ \A i \in 1..Len(s) : DigitVal(Ch(s, i)) < b

RECURSIVE NoUnderscores(_)
NoUnderscores(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "_" THEN "" ELSE Ch(s, 1)) \o NoUnderscores(Sub(s, 2, Len(s)))

(* an int as an optional sign and decimal digits, or 0x and hex digits, or 0b and binary ones; 0 otherwise *)
ParseInt0(s) ==   \* NONE if it is not one
    LET n == Len(s)
        p2 == Sub(s, 1, 2)
        rest == Sub(s, 3, n)
    IN IF n > 2 /\ p2 \in {"0x", "0X"}
         THEN (IF Len(rest) > 1 /\ Sub(rest, 1, 2) \in {"0x", "0X"} THEN OOD ELSE IF DigitsOk(rest, 16) THEN ParseDigits(rest, 16, IntV(0))
               ELSE IF IsAlpha(Ch(rest, 1)) \/ IsDigit(Ch(rest, 1)) THEN NONE ELSE OOD)
       ELSE IF n > 2 /\ p2 \in {"0b", "0B"}
         THEN (IF Len(rest) > 1 /\ Sub(rest, 1, 2) \in {"0b", "0B"} THEN OOD ELSE IF DigitsOk(rest, 2) THEN ParseDigits(rest, 2, IntV(0))
               ELSE IF IsAlpha(Ch(rest, 1)) \/ IsDigit(Ch(rest, 1)) THEN NONE ELSE OOD)
       ELSE IF n = 0 THEN OOD
       ELSE IF IsSpace(Ch(s, 1)) THEN OOD
       ELSE LET neg == Ch(s, 1) = "-"
                d == IF Ch(s, 1) \in {"-", "+"} THEN Sub(s, 2, n) ELSE s
            IN IF ~DigitsOk(d, 10) THEN NONE
               ELSE LET v == ParseDigits(d, 10, IntV(0)) IN IF IsOod(v) THEN OOD ELSE IF ~neg THEN v ELSE OfLimbs(I64!NegateL(Limbs(v)))
StrToInt(s) ==
    IF s = "" THEN IntV(0)
    ELSE LET r == ParseInt0(IF Len(s) <= 2 THEN s ELSE NoUnderscores(s))
         IN IF r = NONE THEN IntV(0) ELSE r

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
(* w.f times ten to the e, in 64ths, which have at most 6 digits behind the dot *)
FloatOf(w, f0, e) ==
    LET f == TrimZeros(f0)
        d0 == NoZeros(w \o f)
        d1 == TrimZeros(d0)
        d == IF d1 = "" THEN "0" ELSE d1
        x == e - Len(f) + Len(d0) - Len(d1)
        n == ParseDigits(d, 10, 0).i
        p == Pow10(-x)
    IN IF d = "0" THEN FltV(0)
       ELSE IF Len(d) > 8 \/ x > 8 \/ x < -6 THEN OOD
       ELSE IF x >= 0 THEN (IF n <= 16777215 \div Pow10(x) THEN FltV(n * Pow10(x) * 64) ELSE OOD)
       ELSE IF n \div p > 16777215 \/ ((n % p) * 64) % p # 0 THEN OOD
       ELSE FltV((n \div p) * 64 + ((n % p) * 64) \div p)

(* a float as digits, a dot, digits, and possibly an exponent, or what is an int; NaN otherwise *)
WithExponent(s) ==      \* it has an e
    LET X == {i \in 1..Len(s) : Ch(s, i) \in {"e", "E"}}
        x == MinOf(X)
        m == Sub(s, 1, x - 1)
        e0 == Sub(s, x + 1, Len(s))
        sg == e0 # "" /\ Ch(e0, 1) \in {"+", "-"}
        e == IF sg THEN Sub(e0, 2, Len(e0)) ELSE e0
        D == {i \in 1..Len(m) : Ch(m, i) = "."}
        d == MinOf(D)
        w == Sub(m, 1, d - 1)
        f == Sub(m, d + 1, Len(m))
    IN IF Cardinality(X) > 1 \/ Cardinality(D) # 1 THEN NANV
       ELSE IF ~DigitsOk(w, 10) \/ ~(f = "" \/ DigitsOk(f, 10)) \/ ~DigitsOk(e, 10) THEN NANV
       ELSE LET ev == ParseDigits(e, 10, 0)
            IN IF IsOod(ev) \/ NumI(ev) > 1000 THEN OOD ELSE FloatOf(w, f, IF sg /\ Ch(e0, 1) = "-" THEN -ev.i ELSE ev.i)
UnsignedToFloat(s0) ==
    IF s0 = "" \/ ~IsDigit(Ch(s0, 1)) THEN NANV
    ELSE IF \E i \in 1..(Len(s0) - 1) : Sub(s0, i, i + 1) = "._" THEN OOD
    ELSE LET s == NoUnderscores(s0)
             D == {i \in 1..Len(s) : Ch(s, i) = "."}
         IN IF Len(s) > 2 /\ Sub(s, 1, 2) \in {"0x", "0X", "0b", "0B"}
              THEN (IF D # {} THEN NANV ELSE LET r == ParseInt0(s) IN IF r = NONE THEN NANV ELSE ToF(r))
            ELSE IF Ch(s, 1) = "0" /\ Len(s) > 1 /\ IsAlpha(Ch(s, 2)) THEN NANV
            ELSE IF \E i \in 1..Len(s) : Ch(s, i) \in {"e", "E"} THEN WithExponent(s)
            ELSE IF D = {} THEN LET r == ParseInt0(s) IN IF IsOod(r) THEN OOD ELSE IF r = NONE THEN NANV ELSE ToF(r)
            ELSE IF Cardinality(D) > 1 THEN NANV
            ELSE LET d == MinOf(D)
                     w == Sub(s, 1, d - 1)
                     f == Sub(s, d + 1, Len(s))
                 IN IF ~DigitsOk(w, 10) \/ ~DigitsOk(f, 10) THEN NANV
                    ELSE IF Len(f) > 6 THEN OOD
                    ELSE LET wi == ParseDigits(w, 10, IntV(0))
                             fi == ParseDigits(f, 10, IntV(0))
                             sc == 64 * fi.i
                             p == IF Len(f) = 1 THEN 10 ELSE IF Len(f) = 2 THEN 100 ELSE IF Len(f) = 3 THEN 1000
                                  ELSE IF Len(f) = 4 THEN 10000 ELSE IF Len(f) = 5 THEN 100000 ELSE 1000000
                         IN IF IsOod(wi) \/ NumI(wi) >= 16777216 \/ sc % p # 0 THEN OOD
                            ELSE FltV(wi.i * 64 + sc \div p)
\* with a sign, it is in decimal
StrToFloat(s) ==
    LET signed == s # "" /\ Ch(s, 1) \in {"-", "+"}
        neg == signed /\ Ch(s, 1) = "-"
        d == IF signed THEN Sub(s, 2, Len(s)) ELSE s
        v == UnsignedToFloat(d)
    IN IF d = "" THEN NANV
       ELSE IF Ch(d, 1) = "i" THEN (IF d = "inf" THEN INFV(neg) ELSE IF DropChar(d, "_") = "inf" THEN OOD ELSE NANV)
       ELSE IF ~signed \/ IsOod(v) THEN v
       ELSE IF Len(d) > 1 /\ Ch(d, 1) = "0" /\ IsAlpha(Ch(d, 2)) THEN NANV
       ELSE IF ~neg THEN v
       ELSE IF v = FltV(0) THEN (IF Find(d, ".") >= 0 THEN OOD ELSE v)      \* -0.0
       ELSE FNeg(v)

(* what is printed: without the characters 0 *)
NUL == JsonDeserialize("chars.json")[1]
Printed(s) == IF Find(s, NUL) < 0 THEN s ELSE DropChar(s, NUL)
=============================================================================
