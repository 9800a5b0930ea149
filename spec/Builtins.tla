------------------------------ MODULE Builtins ------------------------------
(***************************************************************************)
(* The functions that are built into the language: the methods of the      *)
(* builtin types, and the functions of the libraries.  Each is a relation  *)
(* between its arguments and the heap on one side, and an error or its     *)
(* results and the heap after it on the other.                             *)
(***************************************************************************)
EXTENDS Files


(* number of parameters, -1 for any number of them *)
Arity ==
  [n \in {"list.__len", "list.copy", "list.pop", "list.tostr", "list.reverse", "list.clear", "list.sort", "list.spread",
          "table.__len", "table.keys", "table.values", "table.copy", "table.tostr", "table.clear",
          "set.tostr", "set.tolist", "set.__len", "set.copy", "set.clear",
          "undef.tostr", "undef.tobool", "float.toint", "float.tobool", "float.tofloat", "float.tostr",
          "int.toint", "int.tobool", "int.tofloat", "int.tostr", "bool.tostr", "bool.tobool",
          "str.__len", "str.tofloat", "str.toint", "str.isalnum", "str.isal", "str.isnum", "str.isspace", "str.tobool",
          "str.tostr", "str.toupper", "str.tolower", "mt.get",
          "math.abs", "math.sqrt", "math.floor", "math.ceil", "math.isprime", "file.flush", "file.close"} |-> 1] @@
  [n \in {"list.push", "list.__add", "list.__eq", "list.__get", "list.search", "list.join", "list.count",
          "table.remove", "table.__get", "table.__bor", "table.__eq",
          "set.__band", "set.__bor", "set.__bxor", "set.__bandnot", "set.__eq", "set.__gt", "set.__ge", "set.__lt",
          "set.__le", "set.add", "set.remove", "set.__get",
          "str.startswith", "str.endswith", "str.search", "str.count", "str.split", "str.ltrim", "str.rtrim", "str.trim",
          "str.__get", "str.rep", "mt.set", "math.gcd", "math.lcm", "io.open", "file.read", "file.write"} |-> 2] @@
  [n \in {"list.__set", "list.insert", "table.__set", "file.seek"} |-> 3] @@
  [n \in {"str.replace"} |-> 4] @@
  [n \in {"collections.set", "collections.list", "collections.table", "math.max", "math.min"} |-> -1] @@
  [n \in {"obj"} |-> 0] @@ [n \in {"id", "lit", "__require_c__", "cm.pair"} |-> 1] @@ [n \in {"cm.add"} |-> 2] @@ [n \in {"cm.count"} |-> -1]

(* the method of a builtin type, or NONE *)
Method(t, key) == IF key.t = "str" /\ (t \o "." \o key.s) \in DOMAIN Arity /\ t \notin {"mt", "math", "collections", "io", "cm"}
                  THEN CfnV(t \o "." \o key.s) ELSE NONE

RECURSIVE Pad(_, _)
Pad(a, n) == IF n < 0 \/ Len(a) = n THEN a ELSE IF Len(a) > n THEN SubSeq(a, 1, n) ELSE Pad(Append(a, UNDEF), n)


NormIdx(i, n) == IF i < 0 THEN i + n ELSE i     \* 0-based
InIdx(i, n) == -n <= i /\ i < n

RECURSIVE TFromPairs(_, _, _)
(* entries are inserted from the last to the first one *)
TFromPairs(o, args, i) ==     \* NONE if a key is not hashable, OOD if it is not modelled
    IF i <= 0 THEN o
    ELSE LET key == args[i]  v == args[i + 1]
         IN IF v.t = "undef" THEN TFromPairs(o, args, i - 2)
            ELSE IF ~Hashable(key) THEN NONE
            ELSE IF KeyBad(key) THEN OOD
            ELSE TFromPairs(TPut(o, key, v), args, i - 2)
RECURSIVE SFromSeq(_, _, _)
SFromSeq(o, a, i) == IF i > Len(a) THEN o ELSE SFromSeq(SAdd(o, a[i]), a, i + 1)
MkSet(hp, a) == IF \E i \in 1..Len(a) : ~Hashable(a[i]) THEN Err(TYPE)
                ELSE IF \E i \in 1..Len(a) : KeyBad(a[i]) THEN OodR
                ELSE New(hp, SFromSeq(SetO(<<>>), a, 1), "set")
MkTable(hp, a0) ==
    LET a == IF Len(a0) % 2 = 1 THEN Append(a0, UNDEF) ELSE a0
        o == TFromPairs(TableO(<<>>, <<>>), a, Len(a) - 1)
    IN IF o = NONE THEN Err(TYPE) ELSE IF o = OOD THEN OodR ELSE New(hp, o, "table")

ListFn(name, a, hp) ==
    LET self == a[1]
        o == hp[self.i]
        el == o.a
        n == Len(el)
        Upd(x) == [hp EXCEPT ![self.i] = x]
    IN
    IF self.t # "list" THEN Err(TYPE)
    ELSE IF o.u /\ name \notin {"list.sort", "list.__len", "list.clear"} THEN OodR
    ELSE
    CASE name = "list.__len" -> R1(IntV(n), hp)
      [] name = "list.push" -> R1(self, Upd([o EXCEPT !.a = Append(@, a[2])]))
      [] name = "list.copy" -> New(hp, ListO(el), "list")
      [] name = "list.pop" -> IF n = 0 THEN Err(VALUE) ELSE R1(el[n], Upd([o EXCEPT !.a = SubSeq(@, 1, n - 1)]))
      [] name = "list.reverse" -> Rs(<<>>, Upd([o EXCEPT !.a = RevSeq(@)]))
      [] name = "list.clear" -> Rs(<<>>, Upd([o EXCEPT !.a = <<>>, !.u = FALSE]))
      [] name = "list.sort" ->
            IF ~Sortable(el) THEN Err(VALUE) ELSE IF SortOod(el) THEN OodR
            ELSE IF o.u /\ ~SortDistinct(el) THEN OodR
            ELSE IF Len(el) > MAXPERM /\ ~SortDistinct(el) THEN OodR
            ELSE {[e |-> 0, v |-> <<>>, hp |-> Upd([o EXCEPT !.a = s, !.u = FALSE])] : s \in SortResults(el)}
      [] name = "list.spread" -> Rs(el, hp)
      [] name = "list.tostr" -> IF TextOk(hp, self) THEN UNION {R1(StrV(x), hp) : x \in Texts(hp, self, {})} ELSE OodR
      [] name = "list.__add" -> IF a[2].t # "list" THEN Err(TYPE)
                                ELSE IF hp[a[2].i].u THEN OodR ELSE New(hp, ListO(el \o hp[a[2].i].a), "list")
      [] name = "list.__get" -> IF a[2].t # "int" THEN Err(TYPE)
                                ELSE IF ~InIdx(NumI(a[2]), n) THEN Err(VALUE)
                                ELSE R1(el[NormIdx(a[2].i, n) + 1], hp)
      [] name = "list.__set" -> IF a[2].t # "int" THEN Err(TYPE)
                                ELSE IF ~InIdx(NumI(a[2]), n) THEN Err(VALUE)
                                ELSE R1(self, Upd([o EXCEPT !.a[NormIdx(a[2].i, n) + 1] = a[3]]))
      [] name = "list.insert" -> IF a[2].t # "int" THEN Err(TYPE)
                                 ELSE IF NumI(a[2]) = n THEN R1(self, Upd([o EXCEPT !.a = Append(@, a[3])]))
                                 ELSE IF ~InIdx(NumI(a[2]), n) THEN Err(VALUE)
                                 ELSE R1(self, Upd([o EXCEPT !.a = InsertIdx(@, NormIdx(a[2].i, n) + 1, a[3])]))
      [] name = "list.search" -> LET S == {i \in 1..n : ScalarEq(el[i], a[2])}
                                 IN IF S = {} THEN R1(UNDEF, hp) ELSE UNION {R1(IntV(i - 1), hp) : i \in S}
      [] name = "list.count" -> R1(IntV(Cardinality({i \in 1..n : ScalarEq(el[i], a[2])})), hp)
      [] name = "list.join" -> IF a[2].t # "str" THEN Err(TYPE)
                               ELSE IF NOrders(hp, self, {}) > MAXTEXTS THEN OodR
                               ELSE IF \E i \in 1..n : \/ ~Printable(hp, el[i], {}, FALSE, FALSE)
                                                       \/ IsRef(el[i]) /\ hp[el[i].i].mt # 0 THEN OodR
                               ELSE UNION {R1(StrV(x), hp) : x \in JoinTexts(hp, el, 1, a[2].s, {})}

TableFn(name, a, hp) ==
    LET self == a[1]
        o == hp[self.i]
        Upd(x) == [hp EXCEPT ![self.i] = x]
    IN
    IF self.t # "table" THEN Err(TYPE)
    ELSE
    CASE name = "table.__len" -> R1(IntV(Len(o.k)), hp)
      [] name = "table.keys" -> IF BigOrder(o) THEN New(hp, [ListO(o.k) EXCEPT !.u = TRUE], "list")
                                ELSE UNION {New(hp, ListO(Permute(o.k, p)), "list") : p \in Orders(o)}
      [] name = "table.values" -> IF BigOrder(o) THEN New(hp, [ListO(o.a) EXCEPT !.u = TRUE], "list")
                                  ELSE UNION {New(hp, ListO(Permute(o.a, p)), "list") : p \in Orders(o)}
      [] name = "table.copy" -> New(hp, TableO(o.k, o.a), "table")
      [] name = "table.clear" -> Rs(<<>>, Upd([o EXCEPT !.k = <<>>, !.a = <<>>]))
      [] name = "table.tostr" -> IF TextOk(hp, self) THEN UNION {R1(StrV(x), hp) : x \in Texts(hp, self, {})} ELSE OodR
      [] name = "table.remove" -> IF KeyBad(a[2]) THEN OodR ELSE R1(self, Upd(TDel(o, a[2])))
      [] name = "table.__get" -> IF KeyBad(a[2]) THEN OodR
                                 ELSE LET r == TGet(o, a[2]) IN R1(IF r = NONE THEN UNDEF ELSE r, hp)
      [] name = "table.__set" -> IF KeyBad(a[2]) THEN OodR
                                 ELSE IF a[3].t = "undef" THEN R1(self, Upd(TDel(o, a[2])))
                                 ELSE IF ~Hashable(a[2]) THEN Err(TYPE)
                                 ELSE R1(self, Upd(TPut(o, a[2], a[3])))
      [] name = "table.__bor" -> IF a[2].t # "table" THEN Err(TYPE)
                                 ELSE New(hp, TMerge(TableO(o.k, o.a), hp[a[2].i], 1), "table")

SetFn(name, a, hp) ==
    LET self == a[1]
        o == hp[self.i]
        other == hp[a[2].i]
        Upd(x) == [hp EXCEPT ![self.i] = x]
    IN
    IF self.t # "set" THEN Err(TYPE)
    ELSE IF name \in {"set.__band", "set.__bor", "set.__bxor", "set.__bandnot", "set.__eq", "set.__gt", "set.__ge",
                      "set.__lt", "set.__le"} /\ a[2].t # "set" THEN Err(TYPE)
    ELSE
    CASE name = "set.__len" -> R1(IntV(Len(o.k)), hp)
      [] name = "set.tostr" -> IF TextOk(hp, self) THEN UNION {R1(StrV(x), hp) : x \in Texts(hp, self, {})} ELSE OodR
      [] name = "set.tolist" -> IF BigOrder(o) THEN New(hp, [ListO(o.k) EXCEPT !.u = TRUE], "list")
                                ELSE UNION {New(hp, ListO(Permute(o.k, p)), "list") : p \in Orders(o)}
      [] name = "set.copy" -> New(hp, SetO(o.k), "set")
      [] name = "set.clear" -> R1(self, Upd([o EXCEPT !.k = <<>>]))
      [] name = "set.add" -> IF ~Hashable(a[2]) THEN Err(TYPE) ELSE IF KeyBad(a[2]) THEN OodR ELSE R1(self, Upd(SAdd(o, a[2])))
      [] name = "set.remove" -> IF KeyBad(a[2]) THEN OodR ELSE R1(a[2], Upd(SDel(o, a[2])))
      [] name = "set.__get" -> IF KeyBad(a[2]) THEN OodR ELSE R1(BoolV(SHas(o, a[2])), hp)
      [] name = "set.__bor" -> New(hp, SUnion(o, other), "set")
      [] name = "set.__band" -> New(hp, SInter(o, other), "set")
      [] name = "set.__bxor" -> New(hp, SSym(o, other), "set")
      [] name = "set.__bandnot" -> New(hp, SDiff(o, other), "set")
      [] name = "set.__eq" -> R1(BoolV(Members(o) = Members(other)), hp)
      [] name = "set.__le" -> R1(BoolV(Members(o) \subseteq Members(other)), hp)
      [] name = "set.__lt" -> R1(BoolV(Members(o) \subseteq Members(other) /\ Members(o) # Members(other)), hp)
      [] name = "set.__ge" -> R1(BoolV(Members(other) \subseteq Members(o)), hp)
      [] name = "set.__gt" -> R1(BoolV(Members(other) \subseteq Members(o) /\ Members(o) # Members(other)), hp)

StrFn(name, a, hp) ==
    LET self == a[1]
        s == self.s
        n == Len(s)
        x == a[2]
        \* methods whose optional second argument, if it is given, has to be a nonempty str
        NeedStr(r) == IF x.t # "str" THEN Err(TYPE) ELSE IF x.s = "" THEN Err(VALUE) ELSE r
        Str1(v) == R1(StrV(v), hp)
    IN
    IF self.t # "str" THEN Err(TYPE)
    ELSE
    CASE name = "str.__len" -> R1(IntV(n), hp)
      [] name = "str.tofloat" -> R1(StrToFloat(s), hp)
      [] name = "str.toint" -> R1(StrToInt(s), hp)
      [] name = "str.tobool" -> R1(BoolV(s # ""), hp)
      [] name = "str.tostr" -> R1(self, hp)
      [] name = "str.isal" -> R1(BoolV(AllStr(IsAlpha, s)), hp)
      [] name = "str.isnum" -> R1(BoolV(AllStr(IsDigit, s)), hp)
      [] name = "str.isalnum" -> R1(BoolV(AllStr(LAMBDA c : IsAlpha(c) \/ IsDigit(c), s)), hp)
      [] name = "str.isspace" -> R1(BoolV(AllStr(IsSpace, s)), hp)
      [] name = "str.toupper" -> Str1(MapStr(UpperC, s))
      [] name = "str.tolower" -> Str1(MapStr(LowerC, s))
      [] name = "str.startswith" -> IF x.t # "str" THEN Err(TYPE) ELSE R1(BoolV(StartsWith(s, x.s)), hp)
      [] name = "str.endswith" -> IF x.t # "str" THEN Err(TYPE) ELSE R1(BoolV(EndsWith(s, x.s)), hp)
      [] name = "str.search" -> IF x.t # "str" THEN Err(TYPE)
                                ELSE LET f == Find(s, x.s) IN R1(IF f < 0 THEN UNDEF ELSE IntV(f), hp)
      [] name = "str.count" -> NeedStr(R1(IntV(CountFrom(s, x.s, 1)), hp))
      [] name = "str.split" ->
            IF x.t = "undef" THEN New(hp, ListO(Words(s, 1)), "list")
            ELSE NeedStr(New(hp, ListO(SplitFrom(s, x.s, 1, 1)), "list"))
      [] name = "str.ltrim" -> IF x.t = "undef" THEN Str1(LTrimWs(s)) ELSE NeedStr(Str1(LTrim(s, x.s)))
      [] name = "str.rtrim" -> IF x.t = "undef" THEN Str1(RTrimWs(s)) ELSE NeedStr(Str1(RTrim(s, x.s)))
      [] name = "str.trim" -> IF x.t = "undef" THEN Str1(RTrimWs(LTrimWs(s))) ELSE NeedStr(Str1(RTrim(LTrim(s, x.s), x.s)))
      [] name = "str.__get" -> IF x.t # "int" THEN Err(TYPE) ELSE IF ~InIdx(NumI(x), n) THEN Err(VALUE)
                               ELSE Str1(Ch(s, NormIdx(x.i, n) + 1))
      [] name = "str.rep" -> IF x.t # "int" THEN Err(TYPE) ELSE IF NumI(x) < 0 THEN Err(VALUE)
                             ELSE IF NumI(x) > 200 THEN OodR ELSE Str1(RepStr(s, x.i))
      [] name = "str.replace" ->
            IF a[4].t \notin {"undef", "int"} \/ a[3].t # "str" \/ x.t # "str" THEN Err(TYPE)
            ELSE IF x.s = "" THEN Err(VALUE)
            ELSE Str1(ReplaceFrom(s, x.s, a[3].s, 1, IF a[4].t = "undef" THEN -1 ELSE IF NumI(a[4]) < 0 THEN 0 ELSE NumI(a[4])))

ScalarFn(name, a, hp) ==
    LET v == a[1]
        Is(t) == v.t = t
    IN
    CASE name = "undef.tostr" -> IF Is("undef") THEN R1(StrV("undef"), hp) ELSE Err(TYPE)
      [] name = "undef.tobool" -> IF Is("undef") THEN R1(FALSEV, hp) ELSE Err(TYPE)
      [] name = "bool.tostr" -> IF Is("bool") THEN R1(StrV(ScalarStr(v)), hp) ELSE Err(TYPE)
      [] name = "bool.tobool" -> IF Is("bool") THEN R1(v, hp) ELSE Err(TYPE)
      [] name = "int.tostr" -> IF Is("int") THEN R1(StrV(ScalarStr(v)), hp) ELSE Err(TYPE)
      [] name = "int.toint" -> IF Is("int") THEN R1(v, hp) ELSE Err(TYPE)
      [] name = "int.tofloat" -> IF Is("int") THEN R1(ToF(v), hp) ELSE Err(TYPE)
      [] name = "int.tobool" -> IF Is("int") THEN R1(TRUEV, hp) ELSE Err(TYPE)
      [] name = "float.tostr" -> IF Is("float") THEN R1(StrV(ScalarStr(v)), hp) ELSE Err(TYPE)
      [] name = "float.tofloat" -> IF Is("float") THEN R1(v, hp) ELSE Err(TYPE)
      [] name = "float.tobool" -> IF Is("float") THEN R1(BoolV(~Falsey(v)), hp) ELSE Err(TYPE)
      [] name = "float.toint" -> IF ~Is("float") THEN Err(TYPE) ELSE IF v.s # "" THEN OodR ELSE R1(IntV(TDiv(v.i, 64)), hp)

IsPrime(n) == n > 1 /\ \A d \in 2..(IF n < 10000 THEN 100 ELSE IF n < 1000000 THEN 1000 ELSE 32768) : d * d > n \/ n % d # 0
\* a number as an int: floats are truncated
TruncV(v) == IF v.t = "int" THEN v ELSE IF v.s # "" THEN OOD ELSE IntV(TDiv(v.i, 64))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* on positive ints of any size; a product that overflows is out of the domain
IntQuo(a, b) == IF Small(a) /\ Small(b) THEN IntV(TDiv(a.i, b.i)) ELSE OfLimbs(I64!DivL(Limbs(a), Limbs(b)))
IntRem(a, b) == IF Small(a) /\ Small(b) THEN IntV(TMod(a.i, b.i)) ELSE OfLimbs(I64!ModL(Limbs(a), Limbs(b)))
RECURSIVE GcdV(_, _)
GcdV(a, b) == IF Small(a) /\ Small(b) THEN IntV(Gcd(a.i, b.i)) ELSE IF b = IntV(0) THEN a ELSE GcdV(b, IntRem(a, b))
IntMul(a, b) == IF Small(a) /\ Small(b) /\ MulOk(a.i, b.i) THEN IntV(a.i * b.i)
                ELSE LET p == I64!MulL(Limbs(a), Limbs(b))
                     IN IF I64!NegL(p) \/ I64!DivL(p, Limbs(b)) # Limbs(a) THEN OOD ELSE OfLimbs(p)
SqrtOf(f) == {r \in 0..(IF f.i < 1000000 THEN 1000 ELSE 32767) : r * r = f.i}    \* in eighths

RECURSIVE BestOf(_, _, _, _)
BestOf(a, i, best, dir) ==     \* dir "gt" for the greatest, "lt" for the least
    IF i > Len(a) THEN best
    ELSE IF best = NONE \/ CmpNum(a[i], best) = dir THEN BestOf(a, i + 1, a[i], dir) ELSE BestOf(a, i + 1, best, dir)

MathFn(name, a, hp) ==
    LET v == a[1] IN
    CASE name = "math.abs" ->
            IF v.t = "int" THEN R1(IF Small(v) THEN IntV(Abs(v.i)) ELSE IF I64!NegateL(Limbs(v)) = Limbs(v) THEN OOD ELSE OfLimbs(I64!AbsL(Limbs(v))), hp)
            ELSE IF v.t = "float" THEN R1(IF Nan(v) THEN v ELSE IF Inf(v) THEN INFV(FALSE) ELSE FltV(Abs(v.i)), hp)
            ELSE Err(TYPE)
      [] name \in {"math.floor", "math.ceil", "math.sqrt"} ->
            IF ~IsNum(v) THEN Err(TYPE)
            ELSE LET f == ToF(v) IN
                 IF IsOod(f) THEN OodR
                 ELSE IF Nan(f) THEN R1(f, hp)
                 ELSE IF name = "math.sqrt" THEN
                    (IF Inf(f) THEN R1(IF Neg(f) THEN NANV ELSE f, hp) ELSE IF f.i < 0 THEN R1(NANV, hp)
                     ELSE LET S == SqrtOf(f) IN IF S = {} THEN OodR ELSE R1(FltV(8 * (CHOOSE r \in S : TRUE)), hp))
                 ELSE IF Inf(f) THEN R1(f, hp)
                 ELSE IF name = "math.floor" THEN R1(FltV((f.i \div 64) * 64), hp)
                 ELSE IF f.i < 0 /\ f.i > -64 THEN OodR     \* -0.0
                 ELSE R1(FltV(-(((-f.i) \div 64) * 64)), hp)
      [] name = "math.isprime" ->
            IF ~IsNum(v) THEN Err(TYPE)
            ELSE LET n == TruncV(v) IN IF IsOod(n) \/ NumI(n) >= LIM THEN OodR ELSE R1(BoolV(NumI(n) > 1 /\ IsPrime(n.i)), hp)
      [] name \in {"math.gcd", "math.lcm"} ->
            IF ~IsNum(a[1]) \/ ~IsNum(a[2]) THEN Err(TYPE)
            ELSE LET p == TruncV(a[1])
                     q == TruncV(a[2])
                     g == GcdV(p, q)
                     l == IntMul(IntQuo(p, g), q)
                 IN IF IsOod(p) \/ IsOod(q) THEN OodR
                    ELSE IF NumI(p) <= 0 \/ NumI(q) <= 0 THEN R1(UNDEF, hp)
                    ELSE R1(IF name = "math.gcd" THEN g ELSE l, hp)
      [] name \in {"math.max", "math.min"} ->
            IF Len(a) = 0 THEN R1(INFV(name = "math.max"), hp)
            ELSE LET NaNs == {i \in 1..Len(a) : a[i].t = "float" /\ Nan(a[i])}
                     Bad == {i \in 1..Len(a) : ~IsNum(a[i])}
                 IN IF Bad # {} THEN (IF NaNs # {} THEN OodR ELSE Err(TYPE))
                    ELSE IF NaNs # {} THEN R1(NANV, hp)
                    ELSE IF \E i, j \in 1..Len(a) : CmpNum(a[i], a[j]) = "ood" THEN OodR
                    ELSE LET b == BestOf(a, 1, NONE, IF name = "math.max" THEN "gt" ELSE "lt")
                             \* an int and a float can be equally great: either is right
                         IN UNION {R1(a[i], hp) : i \in {j \in 1..Len(a) : CmpNum(a[j], b) = "eq"}}

(* The modules in C that there are in the directories of the programs that require modules (see harness/mods), and their functions.   *)
(* What is there as lib<name>.so comes before <name>.so: cdup is both.  Others are no libraries, or do not have the function to load. *)
CModule(name, hp) ==
    CASE name \in {"cval", "sub/cval"} -> R1(IntV(42), hp)
      [] name = "cdup" -> R1(StrV("lib"), hp)
      [] name = "ctab" -> LET h == Append(hp, ListO(<<IntV(1), StrV("two")>>))
                              t == TableO(<<StrV("add"), StrV("pair"), StrV("count"), StrV("list")>>,
                                          <<CfnV("cm.add"), CfnV("cm.pair"), CfnV("cm.count"), Ref("list", Len(h))>>)
                          IN New(h, t, "table")
      [] OTHER -> Err(VALUE)

(* The results of calling a builtin function.  a has the arguments the call passed. *)
Cfn(name, a0, hp) ==
    LET a == Pad(a0, Arity[name])
        Pre(p) == Len(name) > Len(p) /\ Sub(name, 1, Len(p)) = p
    IN
    CASE name = "collections.list" -> New(hp, ListO(a), "list")
      [] name = "collections.set" -> IF Len(a) = 1 /\ a[1].t = "list"
                                     THEN (IF hp[a[1].i].u THEN OodR ELSE MkSet(hp, hp[a[1].i].a)) ELSE MkSet(hp, a)
      [] name = "collections.table" -> MkTable(hp, a)
      [] name = "mt.set" -> IF a[2].t # "table" THEN Err(TYPE)
                            ELSE IF a[1].t \notin {"list", "table", "set"} THEN Err(TYPE)
                            ELSE R1(a[1], [hp EXCEPT ![a[1].i].mt = a[2].i])
      [] name = "mt.get" -> IF a[1].t \in {"list", "table", "set"} /\ hp[a[1].i].mt # 0
                            THEN R1(Ref("table", hp[a[1].i].mt), hp) ELSE OodR
      \* the functions of the host: a new object, and the number of one
      [] name = "obj" -> New(hp, ObjO(Cardinality({i \in 1..Len(hp) : hp[i].t = "obj"}) + 1), "obj")
      [] name = "lit" -> IF a[1].t # "str" THEN Err(TYPE) ELSE R1(a[1], hp)
      [] name = "id" -> IF a[1].t # "obj" THEN Err(TYPE) ELSE IF hp[a[1].i].gone THEN R1(StrV("a destroyed object"), hp) ELSE R1(IntV(hp[a[1].i].n), hp)
      [] name = "__require_c__" -> IF a[1].t # "str" THEN Err(TYPE) ELSE CModule(a[1].s, hp)
      [] name = "cm.add" -> IF a[1].t = "int" /\ a[2].t = "int" /\ Small(a[1]) /\ Small(a[2]) THEN R1(IntV(a[1].i + a[2].i), hp)
                            ELSE IF a[1].t = "int" /\ a[2].t = "int" THEN OodR ELSE Err(TYPE)
      [] name = "cm.pair" -> {[e |-> 0, v |-> <<a[1], StrV("pair")>>, hp |-> hp]}
      [] name = "cm.count" -> R1(IntV(Len(a)), hp)
      [] name = "io.open" -> OpenFile(a, hp)
      [] Pre("file.") -> FileFn(name, a, hp)
      [] Pre("list.") -> ListFn(name, a, hp)
      [] Pre("table.") -> TableFn(name, a, hp)
      [] Pre("set.") -> SetFn(name, a, hp)
      [] Pre("str.") -> StrFn(name, a, hp)
      [] Pre("math.") -> MathFn(name, a, hp)
      [] OTHER -> ScalarFn(name, a, hp)
=============================================================================
