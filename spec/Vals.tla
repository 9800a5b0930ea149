-------------------------------- MODULE Vals --------------------------------
(***************************************************************************)
(* The values of YASL and the operations on scalars.                       *)
(*                                                                         *)
(* A value is a record [t, i, s]: t is its type, i the number (for floats  *)
(* in 64ths, for references the index of the object on the heap), s the    *)
(* characters of a str, the name of a builtin function, the kind of a      *)
(* float that is not finite, or the digits of an int beyond 2^30 (i = 0).  *)
(* Ints are 64-bit two's complement: see Int64.  Operations whose exact result is outside of  *)
(* what this can represent give the value OOD ("out of domain"): a replay  *)
(* that meets it is abandoned instead of guessing.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise
I64 == INSTANCE Int64 WITH BASE <- 256, NL <- 8

Val(t, i, s) == [t |-> t, i |-> i, s |-> s]
UNDEF   == Val("undef", 0, "")
OOD     == Val("ood", 0, "")
NONE    == Val("none", 0, "")
BoolV(b) == Val("bool", IF b THEN 1 ELSE 0, "")
TRUEV   == BoolV(TRUE)
FALSEV  == BoolV(FALSE)
StrV(s) == Val("str", 0, s)
Ref(t, id) == Val(t, id, "")
CfnV(name) == Val("cfn", 0, name)

LIM == 1073741824          \* 2^30: ints beyond it are represented by their digits, scaled floats beyond it are out of domain
Abs(x) == IF x < 0 THEN -x ELSE x
InLim(x) == -LIM < x /\ x < LIM
IntV(n) == IF InLim(n) THEN Val("int", n, "") ELSE Val("int", 0, ToString(n))
FltV(n) == IF InLim(n) THEN Val("float", n, "") ELSE OOD     \* n in 64ths
NANV    == Val("float", 0, "nan")
INFV(neg) == Val("float", 0, IF neg THEN "-inf" ELSE "inf")

IsNum(v) == v.t \in {"int", "float"}
IsOod(v) == v.t = "ood"
IsRef(v) == v.t \in {"list", "table", "set", "fn", "obj", "file"}

(* ints as the digits of Int64, and back *)
Small(v) == v.s = ""
Limbs(v) == IF Small(v) THEN I64!FromInt(v.i) ELSE I64!FromDec(v.s)
OfLimbs(l) == LET n == I64!NegL(l)
                  a == IF n THEN I64!NegateL(l) ELSE l
              IN IF a[8] = 0 /\ a[7] = 0 /\ a[6] = 0 /\ a[5] = 0 /\ a[4] < 64 THEN Val("int", I64!ToInt(l), "")
                 ELSE Val("int", 0, I64!Dec(l))
NegI(v) == IF Small(v) THEN v.i < 0 ELSE SubSeq(v.s, 1, 1) = "-"
\* an int as an index or count: beyond 2^30 it is as good as infinite
NumI(v) == IF Small(v) THEN v.i ELSE IF NegI(v) THEN -LIM ELSE LIM

(* the float an int is converted to *)
ToF(v) == IF v.t = "int" THEN (IF Small(v) /\ Abs(v.i) < 16777216 THEN FltV(v.i * 64) ELSE OOD) ELSE v

------------------------------------------------------------------------------
(* integer arithmetic within the domain *)
MulOk(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= (LIM - 1) \div Abs(b)
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)

RECURSIVE PowI(_, _)
PowI(a, n) ==   \* OOD as a value, as intermediate results may be large
    IF n = 0 THEN IntV(1)
    ELSE LET r == PowI(a, n - 1)
         IN IF IsOod(r) \/ ~Small(r) \/ ~MulOk(r.i, a) THEN OOD ELSE IntV(r.i * a)

(* two's complement bitwise operators by way of the ones on naturals *)
BNot(a) == -a - 1
BAnd(a, b) ==
    CASE a >= 0 /\ b >= 0 -> a & b
      [] a < 0  /\ b >= 0 -> b - (b & BNot(a))
      [] a >= 0 /\ b < 0  -> a - (a & BNot(b))
      [] OTHER            -> BNot(BNot(a) | BNot(b))
BOr(a, b) == BNot(BAnd(BNot(a), BNot(b)))
BXor(a, b) ==
    CASE a >= 0 /\ b >= 0 -> a ^^ b
      [] a < 0  /\ b >= 0 -> BNot(BNot(a) ^^ b)
      [] a >= 0 /\ b < 0  -> BNot(a ^^ BNot(b))
      [] OTHER            -> BNot(a) ^^ BNot(b)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

------------------------------------------------------------------------------
(* floats: the operands are floats in the domain *)
Neg(f) == f.s = "-inf" \/ (f.s = "" /\ f.i < 0)
Inf(f) == f.s \in {"inf", "-inf"}
Nan(f) == f.s = "nan"

FNeg(f) == IF Nan(f) THEN NANV ELSE IF Inf(f) THEN INFV(~Neg(f))
           ELSE IF f.i = 0 THEN OOD ELSE FltV(-f.i)
FAdd(a, b) ==
    CASE Nan(a) \/ Nan(b) -> NANV
      [] Inf(a) /\ Inf(b) -> IF a = b THEN a ELSE NANV
      [] Inf(a) -> a
      [] Inf(b) -> b
      [] OTHER -> FltV(a.i + b.i)
FSub(a, b) ==
    CASE Nan(a) \/ Nan(b) -> NANV
      [] Inf(a) /\ Inf(b) -> IF a # b THEN a ELSE NANV
      [] Inf(a) -> a
      [] Inf(b) -> INFV(~Neg(b))
      [] OTHER -> FltV(a.i - b.i)
FMul(a, b) ==
    CASE Nan(a) \/ Nan(b) -> NANV
      [] Inf(a) \/ Inf(b) -> IF (a.s = "" /\ a.i = 0) \/ (b.s = "" /\ b.i = 0) THEN NANV
                             ELSE INFV(Neg(a) # Neg(b))
      [] a.i = 0 \/ b.i = 0 -> IF Neg(a) \/ Neg(b) THEN OOD ELSE FltV(0)
      [] a.i % 64 = 0 -> IF MulOk(a.i \div 64, b.i) THEN FltV((a.i \div 64) * b.i) ELSE OOD
      [] b.i % 64 = 0 -> IF MulOk(b.i \div 64, a.i) THEN FltV((b.i \div 64) * a.i) ELSE OOD
      [] MulOk(a.i, b.i) /\ (a.i * b.i) % 64 = 0 -> FltV(TDiv(a.i * b.i, 64))
      [] OTHER -> OOD
FDiv(a, b) ==
    CASE Nan(a) \/ Nan(b) -> NANV
      [] Inf(a) /\ Inf(b) -> NANV
      [] Inf(a) -> INFV(Neg(a) # Neg(b))
      [] Inf(b) -> IF Neg(a) # Neg(b) THEN OOD ELSE FltV(0)
      [] b.i = 0 -> IF a.i = 0 THEN NANV ELSE INFV(Neg(a))
      [] a.i = 0 -> IF Neg(b) THEN OOD ELSE FltV(0)
      [] MulOk(a.i, 64) /\ (a.i * 64) % Abs(b.i) = 0 -> FltV(TDiv(a.i * 64, b.i))
      [] OTHER -> OOD

RECURSIVE FPowN(_, _)
FPowN(f, n) == IF n = 0 THEN FltV(64)
               ELSE LET r == FPowN(f, n - 1) IN IF IsOod(r) THEN OOD ELSE FMul(r, f)

FPow(a, b) ==   \* pow of the C library, where its result is certain and exact
    CASE b.s = "" /\ b.i = 0 -> FltV(64)
      [] a.s # "" \/ b.s # "" -> OOD
      [] b.i > 0 /\ b.i % 64 = 0 /\ b.i <= 64 * 30 -> FPowN(a, b.i \div 64)
      [] b.i < 0 /\ b.i % 64 = 0 /\ b.i >= -64 * 30 /\ a.i # 0 ->
            LET r == FPowN(a, (-b.i) \div 64) IN IF IsOod(r) THEN OOD ELSE FDiv(FltV(64), r)
      [] OTHER -> OOD

------------------------------------------------------------------------------
(* characters *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* SubSeq on strings is defined only within their bounds
Sub(s, a, b) == IF a > b \/ a > Len(s) THEN "" ELSE SubSeq(s, a, IF b > Len(s) THEN Len(s) ELSE b)
Ch(s, i) == Sub(s, i, i)
CharSet == {Ch(Ascii, i) : i \in 1..Len(Ascii)}
CodeOf == [c \in CharSet |-> 31 + CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]
Code(c) == IF c = "\n" THEN 10 ELSE IF c = "\t" THEN 9 ELSE IF c \in CharSet THEN CodeOf[c] ELSE 200
Chr(n) == IF n = 10 THEN "\n" ELSE IF n = 9 THEN "\t" ELSE Ch(Ascii, n - 31)
IsDigit(c) == c \in {"0","1","2","3","4","5","6","7","8","9"}
IsUpper(c) == 65 <= Code(c) /\ Code(c) <= 90
IsLower(c) == 97 <= Code(c) /\ Code(c) <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsSpace(c) == c \in {" ", "\n", "\t"}

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i > Len(a) \/ i > Len(b) THEN (IF Len(a) < Len(b) THEN "lt" ELSE IF Len(a) > Len(b) THEN "gt" ELSE "eq")
    ELSE IF Ch(a, i) = Ch(b, i) THEN CmpFrom(a, b, i + 1)
    ELSE IF Code(Ch(a, i)) < Code(Ch(b, i)) THEN "lt" ELSE "gt"
CmpStr(a, b) == CmpFrom(a, b, 1)

------------------------------------------------------------------------------
(* comparison of numbers: "lt", "eq", "gt", or "un" (unordered), or "ood" *)
Decimal(v) == IF Small(v) THEN ToString(v.i) ELSE v.s
CmpMag(a, b) == IF Len(a) < Len(b) THEN "lt" ELSE IF Len(a) > Len(b) THEN "gt" ELSE CmpStr(a, b)
CmpDec(a, b) ==      \* decimal numerals
    LET na == SubSeq(a, 1, 1) = "-"  nb == SubSeq(b, 1, 1) = "-" IN
    IF na /\ ~nb THEN "lt" ELSE IF nb /\ ~na THEN "gt"
    ELSE IF na THEN CmpMag(b, a) ELSE CmpMag(a, b)
CmpNum(a, b) ==
    IF a.t = "int" /\ b.t = "int" THEN
        (IF Small(a) /\ Small(b) THEN (IF a.i < b.i THEN "lt" ELSE IF a.i > b.i THEN "gt" ELSE "eq")
         ELSE CmpDec(Decimal(a), Decimal(b)))
    ELSE LET x == ToF(a)  y == ToF(b) IN
      CASE IsOod(a) \/ IsOod(b) -> "ood"
        [] (~IsOod(x) /\ Nan(x)) \/ (~IsOod(y) /\ Nan(y)) -> "un"
        \* an int beyond all finite floats of the domain
        [] IsOod(x) -> IF y.s = "inf" THEN "lt" ELSE IF y.s = "-inf" THEN "gt" ELSE IF NegI(a) THEN "lt" ELSE "gt"
        [] IsOod(y) -> IF x.s = "inf" THEN "gt" ELSE IF x.s = "-inf" THEN "lt" ELSE IF NegI(b) THEN "gt" ELSE "lt"
        [] x = y -> "eq"
        [] x.s = "inf" \/ y.s = "-inf" -> "gt"
        [] y.s = "inf" \/ x.s = "-inf" -> "lt"
        [] OTHER -> IF x.i < y.i THEN "lt" ELSE "gt"

------------------------------------------------------------------------------
(* text of scalars *)
IntStr(n) == ToString(n)
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF Len(s) > 1 /\ Ch(s, Len(s)) = "0" THEN TrimZeros(Sub(s, 1, Len(s) - 1)) ELSE s
FltStr(f) ==
    IF f.s # "" THEN f.s
    ELSE LET a == Abs(f.i)
             frac == ToString(1000000 + (a % 64) * 15625)
         IN (IF f.i < 0 THEN "-" ELSE "") \o ToString(a \div 64) \o "." \o TrimZeros(Sub(frac, 2, 7))

ScalarStr(v) ==
    CASE v.t = "undef" -> "undef"
      [] v.t = "bool"  -> IF v.i = 1 THEN "true" ELSE "false"
      [] v.t = "int"   -> IF Small(v) THEN IntStr(v.i) ELSE v.s
      [] v.t = "float" -> FltStr(v)
      [] v.t = "str"   -> v.s

Falsey(v) == \/ v.t = "undef"
             \/ v.t = "bool" /\ v.i = 0
             \/ v.t = "str" /\ v.s = ""
             \/ v.t = "float" /\ v.s = "nan"

(* equality of everything but two lists, two tables or two sets *)
ScalarEq(a, b) ==
    CASE IsNum(a) /\ IsNum(b) -> CmpNum(a, b) = "eq"
      [] a.t # b.t -> FALSE
      [] a.t \in {"undef", "bool", "str", "userptr"} -> a = b
      [] OTHER -> FALSE
=============================================================================
