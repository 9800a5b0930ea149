--------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* The laws that the properties state, checked on the specification        *)
(* itself: for all values of small universes (one state for each tuple),   *)
(* and for all histories of a few operations on containers, next to a      *)
(* function, a set, or a sequence of TLA+.  LAWS says which ones.          *)
(***************************************************************************)
EXTENDS Builtins, TLC, IOUtils

W == IOEnv.LAWS
VARIABLES t, h, g      \* a tuple; a heap; what it should be like
vars == <<t, h, g>>

F(x) == FltV(x)
Big == Val("int", 0, "9223372036854775807")
Small64 == Val("int", 0, "-9223372036854775808")
Scalars == {UNDEF, TRUEV, FALSEV, IntV(0), IntV(1), IntV(-1), IntV(2), Big, Small64, Val("int", 0, "9223372036854775806"),
            F(0), F(64), F(-64), F(96), F(32), F(128), NANV, INFV(FALSE), INFV(TRUE), StrV(""), StrV("a"), StrV("b"), StrV("ab"), StrV("aa"), StrV("1"), StrV("B")}
IsNaN(v) == v.t = "float" /\ Nan(v)
Comparable(a, b) == IsNum(a) /\ IsNum(b) /\ CmpNum(a, b) # "ood"
Order ==
    LET a == t[1]  b == t[2]  c == t[3] IN
    /\ ~IsNaN(a) => ScalarEq(a, a)
    /\ IsNaN(a) => ~ScalarEq(a, b)
    /\ ScalarEq(a, b) = ScalarEq(b, a)
    /\ ScalarEq(a, b) /\ ScalarEq(b, c) => ScalarEq(a, c)
    /\ a = b /\ ~IsNaN(a) => ScalarEq(a, b)
    /\ Comparable(a, b) /\ ~IsNaN(a) /\ ~IsNaN(b) =>
        /\ CmpNum(a, b) \in {"lt", "eq", "gt"}
        /\ (CmpNum(a, b) = "lt") = (CmpNum(b, a) = "gt")
        /\ (CmpNum(a, b) = "eq") = ScalarEq(a, b)
        /\ Comparable(b, c) /\ Comparable(a, c) /\ CmpNum(a, b) = "lt" /\ CmpNum(b, c) = "lt" => CmpNum(a, c) = "lt"
        /\ Comparable(b, c) /\ Comparable(a, c) /\ CmpNum(a, b) = "eq" => CmpNum(a, c) = CmpNum(b, c)
    /\ a.t = "str" /\ b.t = "str" =>
        /\ CmpStr(a.s, b.s) \in {"lt", "eq", "gt"}
        /\ (CmpStr(a.s, b.s) = "lt") = (CmpStr(b.s, a.s) = "gt")
        /\ (CmpStr(a.s, b.s) = "eq") = (a = b)
        /\ c.t = "str" /\ CmpStr(a.s, b.s) = "lt" /\ CmpStr(b.s, c.s) = "lt" => CmpStr(a.s, c.s) = "lt"
    /\ Falsey(a) = (a \in {UNDEF, FALSEV, StrV(""), NANV})

------------------------------------------------------------------------------
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1] \o Join(Tail(s))
StrsOf(S, n) == {Join(s) : s \in SeqsUpTo(S, n)}
Res(r) == (CHOOSE x \in r : TRUE).v[1]
Call(name, a) == Cfn(name, a, <<>>)
S1(name, a) == Res(Call(name, a))
Items(name, a) == LET x == CHOOSE x \in Call(name, a) : TRUE IN x.hp[x.v[1].i].a
Glue(items, sep) == Join([i \in 1..Len(items) |-> (IF i = 1 THEN "" ELSE sep) \o items[i].s])
Strings ==
    LET s == t[1]  n == t[2]  r == t[3]
        sv == StrV(s)  nv == StrV(n)  rv == StrV(r)
        f == S1("str.search", <<sv, nv>>)
        cnt == S1("str.count", <<sv, nv>>).i
        parts == Items("str.split", <<sv, nv>>)
        rep == S1("str.replace", <<sv, nv, rv, UNDEF>>).s
        lt == S1("str.ltrim", <<sv, nv>>).s
        rt == S1("str.rtrim", <<sv, nv>>).s
    IN
    /\ S1("str.startswith", <<sv, nv>>) = BoolV(f = IntV(0))
    /\ (f = UNDEF) = ~\E i \in 0..Len(s) - Len(n) : SubSeq(s, i + 1, i + Len(n)) = n
    /\ n # "" =>
        /\ (f = UNDEF) = (cnt = 0)
        /\ Glue(parts, n) = s
        /\ Len(parts) = cnt + 1
        /\ \A i \in 1..Len(parts) : Find(parts[i].s, n) < 0
        /\ rep = Glue(parts, r)
        /\ Len(rep) = Len(s) + cnt * (Len(r) - Len(n))
        /\ S1("str.replace", <<sv, nv, rv, IntV(0)>>) = sv
        /\ S1("str.replace", <<sv, nv, nv, UNDEF>>) = sv
        /\ \A k \in 0..3 : Len(S1("str.replace", <<sv, nv, rv, IntV(k)>>).s) = Len(s) + (IF k < cnt THEN k ELSE cnt) * (Len(r) - Len(n))
        /\ ~StartsWith(lt, n) /\ EndsWith(s, lt) /\ ~EndsWith(rt, n) /\ StartsWith(s, rt)
        /\ (Len(s) - Len(lt)) % Len(n) = 0 /\ (Len(s) - Len(rt)) % Len(n) = 0
        /\ S1("str.trim", <<sv, nv>>).s = S1("str.rtrim", <<StrV(lt), nv>>).s
    /\ n = "" => Call("str.split", <<sv, nv>>) = Err(VALUE) /\ Call("str.count", <<sv, nv>>) = Err(VALUE)
    /\ LET w == Items("str.split", <<sv>>) IN
        /\ \A i \in 1..Len(w) : w[i].s # "" /\ AllStr(LAMBDA c : ~IsSpace(c), w[i].s)
        /\ Join([i \in 1..Len(w) |-> w[i].s]) = DropChar(s, " ")
    /\ LET u == S1("str.toupper", <<sv>>) IN Len(u.s) = Len(s) /\ S1("str.toupper", <<u>>) = u /\ S1("str.tolower", <<u>>) = S1("str.tolower", <<sv>>)
    /\ S1("str.rep", <<sv, IntV(3)>>).s = s \o s \o s

------------------------------------------------------------------------------
Elems == {IntV(1), F(64), IntV(2), F(96), StrV("a"), UNDEF}
Sorting ==
    LET r == Cfn("list.sort", <<Ref("list", 1)>>, <<ListO(t)>>)
        ok == (\A i \in 1..Len(t) : IsNum(t[i])) \/ (\A i \in 1..Len(t) : t[i].t = "str") IN
    IF ~ok THEN r = Err(VALUE)
    ELSE /\ r # {}
         /\ \A x \in r : LET l == x.hp[1].a IN
            /\ x.e = 0
            /\ Len(l) = Len(t) /\ \A v \in Elems : Cardinality({i \in 1..Len(t) : t[i] = v}) = Cardinality({i \in 1..Len(l) : l[i] = v})
            /\ \A i \in 1..Len(l) - 1 : CmpElem(l[i], l[i + 1]) # "gt"
         \* and every such order is allowed
         /\ \A p \in PermsOf(Len(t)) : LET l == Permute(t, p) IN
            (\A i \in 1..Len(l) - 1 : CmpElem(l[i], l[i + 1]) # "gt") => \E x \in r : x.hp[1].a = l

------------------------------------------------------------------------------
Maths ==
    LET a == t[1]  b == t[2]
        G == S1("math.gcd", <<IntV(a), IntV(b)>>)
        L == S1("math.lcm", <<IntV(a), IntV(b)>>)
        X == F(a)
        fl == S1("math.floor", <<X>>).i
        MX == {x.v[1] : x \in Call("math.max", <<IntV(a), F(64 * b), IntV(b)>>)}
    IN
    /\ IF a <= 0 \/ b <= 0 THEN G = UNDEF /\ L = UNDEF
       ELSE /\ a % G.i = 0 /\ b % G.i = 0
            /\ \A d \in 1..a : a % d = 0 /\ b % d = 0 => d <= G.i
            /\ L.i * G.i = a * b
    /\ S1("math.isprime", <<IntV(a)>>) = BoolV(a > 1 /\ \A d \in 2..a - 1 : a % d # 0)
    /\ fl % 64 = 0 /\ fl <= a /\ a < fl + 64
    /\ a >= 0 \/ a <= -64 => LET c == S1("math.ceil", <<X>>).i IN c % 64 = 0 /\ c >= a /\ c < a + 64
    /\ S1("math.abs", <<IntV(a)>>) = IntV(IF a < 0 THEN -a ELSE a)
    /\ MX # {} /\ \A m \in MX : CmpNum(m, IntV(a)) # "lt" /\ CmpNum(m, IntV(b)) # "lt"
    /\ a >= 0 => S1("math.sqrt", <<IntV(a * a)>>) = F(64 * a)

Conversions ==
    LET a == t[1] * t[2] + t[1]
        v == IntV(a)  f == F(a) IN
    /\ S1("str.toint", <<S1("int.tostr", <<v>>)>>) = v
    /\ S1("str.tofloat", <<S1("float.tostr", <<f>>)>>) = f
    /\ S1("float.toint", <<S1("int.tofloat", <<v>>)>>) = v
    /\ LET i == S1("float.toint", <<f>>).i IN Abs(i) * 64 <= Abs(a) /\ Abs(a) < (Abs(i) + 1) * 64 /\ (a >= 0 => i >= 0) /\ (a < 0 => i <= 0)
    /\ S1("str.toint", <<StrV(ToString(a) \o "x")>>) = IntV(0)
    /\ S1("str.tobool", <<S1("int.tostr", <<v>>)>>) = TRUEV
    /\ S1("int.tobool", <<v>>) = BoolV(~Falsey(v)) /\ S1("float.tobool", <<f>>) = BoolV(~Falsey(f))

------------------------------------------------------------------------------
(* histories of containers.  h: a heap with the container at 1; g: what it should be *)
Keys == {IntV(1), F(64), StrV("1"), TRUEV}
Vs == {IntV(5), StrV("x"), UNDEF}
One(r) == (CHOOSE x \in r : TRUE).hp
Do(name, a) == One(Cfn(name, <<h[1].ref>> \o a, h))
Self(ty) == Ref(ty, 1)
Op(ty, name, a) == SubSeq(One(Cfn(ty \o "." \o name, <<Self(ty)>> \o a, h)), 1, 1)
Val1(ty, name, a) == Res(Cfn(ty \o "." \o name, <<Self(ty)>> \o a, h))
Made(ty, name, a) == LET x == CHOOSE x \in Cfn(ty \o "." \o name, <<Self(ty)>> \o a, h) : TRUE IN x.hp[x.v[1].i]

TableNext ==
    \/ \E k \in Keys, v \in Vs : h' = Op("table", "__set", <<k, v>>) /\ g' = IF v = UNDEF THEN [x \in DOMAIN g \ {k} |-> g[x]] ELSE (k :> v) @@ g
    \/ \E k \in Keys : h' = Op("table", "remove", <<k>>) /\ g' = [x \in DOMAIN g \ {k} |-> g[x]]
    \/ h' = Op("table", "clear", <<>>) /\ g' = <<>>
    \/ h' = <<Made("table", "copy", <<>>)>> /\ g' = g
    \/ \E k \in Keys : LET hp == Append(h, TableO(<<k>>, <<IntV(7)>>))
                           x == CHOOSE x \in Cfn("table.__bor", <<Self("table"), Ref("table", 2)>>, hp) : TRUE
                       IN h' = <<x.hp[x.v[1].i]>> /\ g' = (k :> IntV(7)) @@ g
TableIs ==
    /\ Val1("table", "__len", <<>>) = IntV(Cardinality(DOMAIN g))
    /\ \A k \in Keys : Val1("table", "__get", <<k>>) = IF k \in DOMAIN g THEN g[k] ELSE UNDEF
    /\ \A x \in Cfn("table.keys", <<Self("table")>>, h) : LET l == x.hp[x.v[1].i].a IN
        Len(l) = Cardinality(DOMAIN g) /\ {l[i] : i \in 1..Len(l)} = DOMAIN g
    /\ \A x \in Cfn("table.values", <<Self("table")>>, h) : LET l == x.hp[x.v[1].i].a IN
        Len(l) = Cardinality(DOMAIN g) /\ {l[i] : i \in 1..Len(l)} = {g[k] : k \in DOMAIN g}
    /\ Cardinality({x.hp[x.v[1].i].a : x \in Cfn("table.keys", <<Self("table")>>, h)}) = Cardinality(PermsOf(Cardinality(DOMAIN g)))
    /\ Cfn("table.__set", <<Self("table"), UNDEF, IntV(1)>>, h) = Err(TYPE)

SetNext ==
    \/ \E k \in Keys : h' = Op("set", "add", <<k>>) /\ g' = g \union {k}
    \/ \E k \in Keys : h' = Op("set", "remove", <<k>>) /\ g' = g \ {k}
    \/ h' = Op("set", "clear", <<>>) /\ g' = {}
    \/ h' = <<Made("set", "copy", <<>>)>> /\ g' = g
SetIs ==
    /\ Val1("set", "__len", <<>>) = IntV(Cardinality(g))
    /\ \A k \in Keys : Val1("set", "__get", <<k>>) = BoolV(k \in g)
    /\ \A x \in Cfn("set.tolist", <<Self("set")>>, h) : LET l == x.hp[x.v[1].i].a IN Len(l) = Cardinality(g) /\ {l[i] : i \in 1..Len(l)} = g
    /\ \A B \in SUBSET Keys : \A p \in PermsOf(Cardinality(B)) :
        LET b == Permute(SetToSeq(B), p)
            hp == Append(h, SetO(b))
            R(name) == CHOOSE x \in Cfn("set." \o name, <<Self("set"), Ref("set", 2)>>, hp) : TRUE
            M(name) == LET x == R(name) IN Members(x.hp[x.v[1].i])
            T(name) == R(name).v[1] = TRUEV
        IN /\ M("__bor") = g \union B /\ M("__band") = g \intersect B /\ M("__bandnot") = g \ B /\ M("__bxor") = (g \ B) \union (B \ g)
           /\ T("__eq") = (g = B) /\ T("__le") = (g \subseteq B) /\ T("__lt") = (g \subseteq B /\ g # B) /\ T("__ge") = (B \subseteq g) /\ T("__gt") = (B \subseteq g /\ g # B)
           /\ R("__bor").hp[1] = h[1] /\ R("__bor").hp[2] = hp[2]

LV == {IntV(1), F(64), StrV("a")}
ListNext ==
    \/ \E v \in LV : h' = Op("list", "push", <<v>>) /\ g' = Append(g, v)
    \/ Len(g) > 0 /\ h' = Op("list", "pop", <<>>) /\ g' = SubSeq(g, 1, Len(g) - 1)
    \/ \E v \in LV, i \in -Len(g)..Len(g) : LET j == IF i < 0 THEN i + Len(g) ELSE i IN
            h' = Op("list", "insert", <<IntV(i), v>>) /\ g' = SubSeq(g, 1, j) \o <<v>> \o SubSeq(g, j + 1, Len(g))
    \/ \E v \in LV, i \in 1..Len(g) : h' = Op("list", "__set", <<IntV(i - 1), v>>) /\ g' = [g EXCEPT ![i] = v]
    \/ \E v \in LV, i \in 1..Len(g) : h' = Op("list", "__set", <<IntV(-i), v>>) /\ g' = [g EXCEPT ![Len(g) + 1 - i] = v]
    \/ h' = Op("list", "reverse", <<>>) /\ g' = [i \in 1..Len(g) |-> g[Len(g) + 1 - i]]
    \/ h' = Op("list", "clear", <<>>) /\ g' = <<>>
    \/ h' = <<Made("list", "copy", <<>>)>> /\ g' = g
    \/ h' = <<LET x == CHOOSE x \in Cfn("list.__add", <<Self("list"), Self("list")>>, h) : TRUE IN x.hp[x.v[1].i]>> /\ g' = g \o g
ListIs ==
    LET n == Len(g) IN
    /\ Val1("list", "__len", <<>>) = IntV(n)
    /\ \A i \in -6..6 : Cfn("list.__get", <<Self("list"), IntV(i)>>, h) =
            IF i >= 0 /\ i < n THEN Rs(<<g[i + 1]>>, h) ELSE IF i < 0 /\ -i <= n THEN Rs(<<g[n + 1 + i]>>, h) ELSE Err(VALUE)
    /\ \A v \in LV : Val1("list", "count", <<v>>) = IntV(Cardinality({i \in 1..n : ScalarEq(g[i], v)}))
    /\ \A v \in LV : {x.v[1] : x \in Cfn("list.search", <<Self("list"), v>>, h)} =
            LET S == {i \in 1..n : ScalarEq(g[i], v)} IN IF S = {} THEN {UNDEF} ELSE {IntV(i - 1) : i \in S}
    /\ n = 0 => Cfn("list.pop", <<Self("list")>>, h) = Err(VALUE)
    /\ Cfn("list.insert", <<Self("list"), IntV(n + 1), IntV(1)>>, h) = Err(VALUE)

(* one handle that can do everything, and one that only reads: what they read is what was written *)
FTexts == {"", "a", "b\n", "a\nb"}
FH(hp) == CHOOSE i \in 1..Len(hp) : hp[i].t = "file"
FOp(name, a) == Cfn("file." \o name, <<Ref("file", FH(h))>> \o a, h)
FileNext ==
    \/ \E s \in FTexts : \E x \in FOp("write", <<StrV(s)>>) : h' = x.hp /\
        LET c == g.c
            pos == g.pos
            pad == IF pos > Len(c) THEN c \o RepStr("0", pos - Len(c)) ELSE c
        IN g' = [c |-> IF s = "" THEN c ELSE SubSeq(pad, 1, pos) \o s \o SubSeq(pad, pos + Len(s) + 1, Len(pad)), pos |-> pos + Len(s)]
    \/ \E i \in 0..Len(g.c), w \in {"set", "end"} : \E x \in FOp("seek", <<StrV(w), IntV(IF w = "set" THEN i ELSE i - Len(g.c))>>) : x.v = <<TRUEV>> /\ h' = x.hp /\ g' = [g EXCEPT !.pos = i]
    \/ \E x \in FOp("read", <<StrV("l")>>) : h' = x.hp /\
        LET rest == SubSeq(g.c, g.pos + 1, Len(g.c))
            nl == Find(rest, "\n")
            line == IF nl < 0 THEN rest ELSE SubSeq(rest, 1, nl)
        IN x.v = <<StrV(line)>> /\ g' = [g EXCEPT !.pos = IF nl < 0 THEN Len(g.c) ELSE @ + nl + 1]
    \/ \E x \in FOp("read", <<StrV("a")>>) : x.v = <<StrV(g.c)>> /\ h' = x.hp /\ g' = [g EXCEPT !.pos = Len(g.c)]
FileIs == /\ Content(h, 2) = StrV(g.c) /\ h[FH(h)].pos = g.pos
          \* every operation has a result, the expected one
          /\ \A m \in {"l", "a"} : \E x \in FOp("read", <<StrV(m)>>) : x.e = 0
          /\ {x.v[1] : x \in FOp("read", <<StrV("a")>>)} = {StrV(g.c)}
          /\ LET x == CHOOSE x \in FOp("close", <<>>) : TRUE IN
                \A m \in {"l", "a"} : Cfn("file.read", <<Ref("file", FH(x.hp)), StrV(m)>>, x.hp) = Err(VALUE)
FileStart == One(Cfn("io.open", <<StrV("a"), StrV("w+")>>, <<>>))

------------------------------------------------------------------------------
D == 5      \* length of histories
AB == {"a", "b", " "}
Tuples == CASE W = "order" -> Scalars \X Scalars \X Scalars
            [] W = "strings" -> StrsOf(AB, 4) \X StrsOf({"a", "b"}, 2) \X {"", "b", "aab"}
            [] W = "sorting" -> SeqsUpTo(Elems, 4)
            [] W = "maths" -> (-70..70) \X (-8..40)
            [] W = "conversions" -> (-90..90) \X {0, 63, 64, 65, 1000, 40001}
            [] OTHER -> {<<>>}
Init == /\ t \in Tuples
        /\ h = CASE W = "table" -> <<TableO(<<>>, <<>>)>> [] W = "set" -> <<SetO(<<>>)>> [] W = "list" -> <<ListO(<<>>)>> [] W = "file" -> FileStart [] OTHER -> <<>>
        /\ g = CASE W = "set" -> {} [] W = "file" -> [c |-> "", pos |-> 0] [] OTHER -> <<>>
Next == /\ t' = t
        /\ TLCGet("level") <= D
        /\ CASE W = "table" -> TableNext [] W = "set" -> SetNext [] W = "list" -> Len(g) <= 4 /\ ListNext [] W = "file" -> Len(g.c) < 6 /\ FileNext [] OTHER -> UNCHANGED <<h, g>>
Spec == Init /\ [][Next]_vars
Law == CASE W = "order" -> Order [] W = "strings" -> Strings [] W = "sorting" -> Sorting [] W = "maths" -> Maths [] W = "conversions" -> Conversions
         [] W = "table" -> TableIs [] W = "set" -> SetIs [] W = "list" -> ListIs [] W = "file" -> FileIs
==============================================================================
