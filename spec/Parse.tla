-------------------------------- MODULE Parse --------------------------------
(***************************************************************************)
(* The grammar of YASL: which sequences of tokens (see Lex) are programs,  *)
(* and the trees of nodes they stand for, which are what Yasl gives a      *)
(* meaning to.  For each nonterminal there is an operator X(T, i): what    *)
(* the longest X is that starts at the i-th token of T,                    *)
(*    [st, i, t]   st: "ok", "no", or "ood" if it is not defined whether   *)
(*                 this is a program; i: the token behind it; t: its tree  *)
(***************************************************************************)
EXTENDS Lex

Ok(i, t) == [st |-> "ok", i |-> i, t |-> t]
NilT == [o |-> "nil", i |-> 0, s |-> "", c |-> <<>>, q |-> <<>>, p |-> <<>>]
No == [st |-> "no", i |-> 0, t |-> NilT]
Ood(why) == [st |-> "ood", i |-> 0, t |-> [NilT EXCEPT !.s = why]]
Nd(o, s, i, c, q, p) == [o |-> o, s |-> s, i |-> i, c |-> c, q |-> q, p |-> p]
Leaf(o, s, i) == Nd(o, s, i, <<>>, <<>>, <<>>)
Op(o, c) == Nd(o, "", 0, c, <<>>, <<>>)
Bin(s, a, b) == IF s = "||" THEN Op("or", <<a, b>>) ELSE IF s = "&&" THEN Op("and", <<a, b>>) ELSE IF s = "??" THEN Op("nn", <<a, b>>)
                ELSE Nd("bin", s, 0, <<a, b>>, <<>>, <<>>)
UndefT == Leaf("undef", "", 0)

Is(T, i, s) == T[i].k = "op" /\ T[i].s = s
IsOp(T, i, S) == T[i].k = "op" /\ T[i].s \in S
IsSemi(T, i) == T[i].k = "semi"
IsId(T, i) == T[i].k = "id"
IsNl(T, i) == T[i].k = "semi" /\ T[i].s = "nl"
SkipNl(T, i) == IF IsNl(T, i) THEN i + 1 ELSE i        \* there are never two of them in a row
(* r, if it is ok, followed by the token s *)
Then(T, r, s) == IF r.st # "ok" THEN r ELSE IF Is(T, r.i, s) THEN Ok(r.i + 1, r.t) ELSE No

------------------------------------------------------------------------------
(* names that are globals: the libraries *)
LibNames == {"collections", "math", "mt", "io", "require", "__require_c__", "args", "__VERSION__"}
LibValues == {"collections.list", "collections.set", "collections.table", "io.open", "math.abs", "math.ceil", "math.floor", "math.gcd", "math.isprime", "math.lcm",
              "math.max", "math.min", "math.sqrt", "mt.get", "mt.set"}
GetT(a, b) ==
    IF a.o = "libname" /\ b.o = "str" THEN
        LET n == a.s \o "." \o b.s IN
        IF n \in LibValues THEN Leaf("lib", n, 0)
        ELSE IF n \in {"math.nan", "math.inf"} THEN Leaf("fconst", b.s, 0)
        ELSE Leaf("libname", n, 0)
    ELSE Op("get", <<a, b>>)

RECURSIVE Expr(_, _)
RECURSIVE Level(_, _, _)
RECURSIVE LeftOps(_, _, _, _)
RECURSIVE Unary(_, _)
RECURSIVE Postfix(_, _, _)
RECURSIVE Body(_, _)
RECURSIVE Stmts(_, _, _, _)
RECURSIVE Stmt(_, _)
RECURSIVE Pattern(_, _)

(* binary operators, from the loosest to the tightest *)
Levels == << [r |-> TRUE, s |-> {"??"}], [r |-> TRUE, s |-> {"||"}], [r |-> TRUE, s |-> {"&&"}],
             [r |-> FALSE, s |-> {"==", "!=", "===", "!=="}], [r |-> FALSE, s |-> {"<", "<=", ">", ">="}],
             [r |-> TRUE, s |-> {"~"}], [r |-> FALSE, s |-> {"|"}], [r |-> FALSE, s |-> {"^"}], [r |-> FALSE, s |-> {"&", "&^"}],
             [r |-> FALSE, s |-> {"<<", ">>"}], [r |-> FALSE, s |-> {"+", "-"}], [r |-> FALSE, s |-> {"*", "/", "//", "%"}] >>

Level(T, i, v) ==
    IF v > Len(Levels) THEN Unary(T, i)
    ELSE LET a == Level(T, i, v + 1)  L == Levels[v] IN
         IF a.st # "ok" \/ ~IsOp(T, a.i, L.s) THEN a
         ELSE IF ~L.r THEN LeftOps(T, a.i, v, a.t)
         ELSE LET b == Level(T, a.i + 1, v) IN IF b.st # "ok" THEN b ELSE Ok(b.i, Bin(T[a.i].s, a.t, b.t))
LeftOps(T, i, v, t) ==
    IF ~IsOp(T, i, Levels[v].s) THEN Ok(i, t)
    ELSE LET b == Level(T, i + 1, v + 1) IN IF b.st # "ok" THEN b ELSE LeftOps(T, b.i, v, Bin(T[i].s, t, b.t))

Expr(T, i) ==
    LET a == Level(T, i, 1) IN
    IF a.st # "ok" \/ ~Is(T, a.i, "?") THEN a
    ELSE LET b == Then(T, Expr(T, a.i + 1), ":") IN
         IF b.st # "ok" THEN b
         ELSE LET d == Expr(T, b.i) IN IF d.st # "ok" THEN d ELSE Ok(d.i, Op("tern", <<a.t, b.t, d.t>>))

(* expressions separated by commas, at least one, up to n of them *)
RECURSIVE Exprs(_, _, _, _)
Exprs(T, i, n, acc) ==
    LET a == Expr(T, i) IN
    IF a.st # "ok" THEN [st |-> a.st, i |-> 0, t |-> a.t, es |-> <<>>]
    ELSE IF Is(T, a.i, ",") /\ Len(acc) + 1 < n THEN Exprs(T, a.i + 1, n, Append(acc, a.t))
    ELSE [st |-> "ok", i |-> a.i, t |-> NilT, es |-> Append(acc, a.t)]
ANY == 100000
(* arguments, from behind the parenthesis to behind the closing one; a comma may follow the last *)
RECURSIVE Args(_, _, _)
Args(T, i, acc) ==
    IF Is(T, i, ")") THEN [st |-> "ok", i |-> i + 1, t |-> NilT, es |-> acc]
    ELSE LET a == Expr(T, i) IN
         IF a.st # "ok" THEN [st |-> a.st, i |-> 0, t |-> a.t, es |-> <<>>]
         ELSE IF Is(T, a.i, ",") THEN Args(T, a.i + 1, Append(acc, a.t))
         ELSE IF Is(T, a.i, ")") THEN [st |-> "ok", i |-> a.i + 1, t |-> NilT, es |-> Append(acc, a.t)]
         ELSE [st |-> "no", i |-> 0, t |-> NilT, es |-> <<>>]

Unary(T, i) ==
    IF IsOp(T, i, {"+", "-", "!", "^", "len"})
    THEN LET a == Unary(T, i + 1) IN IF a.st # "ok" THEN a ELSE Ok(a.i, Nd("un", T[i].s, 0, <<a.t>>, <<>>, <<>>))
    ELSE LET a == Postfix(T, i, NilT) IN
         IF a.st # "ok" \/ ~Is(T, a.i, "**") THEN a
         ELSE LET b == Unary(T, a.i + 1) IN IF b.st # "ok" THEN b ELSE Ok(b.i, Bin("**", a.t, b.t))

(* parameters, from behind the parenthesis to behind the closing one *)
RECURSIVE Params(_, _, _, _)
Params(T, i, names, consts) ==
    IF Is(T, i, ")") THEN [st |-> "ok", i |-> i + 1, t |-> NilT, names |-> names, consts |-> consts]
    ELSE LET c == Is(T, i, "const")
             j == IF c THEN i + 1 ELSE i
             ns == Append(names, T[j].s)
             cs == IF c THEN Append(consts, Len(ns)) ELSE consts
         IN IF ~IsId(T, j) THEN [st |-> "no", i |-> 0, t |-> NilT]
            ELSE IF \E k \in 1..Len(names) : names[k] = T[j].s THEN [st |-> "ood", i |-> 0, t |-> [NilT EXCEPT !.s = "parameters of the same name"]]
            ELSE IF Is(T, j + 1, ",") THEN Params(T, j + 2, ns, cs)
            ELSE IF Is(T, j + 1, ")") THEN [st |-> "ok", i |-> j + 2, t |-> NilT, names |-> ns, consts |-> cs]
            ELSE [st |-> "no", i |-> 0, t |-> NilT]
(* a function, from its parenthesis on *)
Func(T, i) ==
    IF ~Is(T, i, "(") THEN No
    ELSE LET ps == Params(T, i + 1, <<>>, <<>>) IN
         IF ps.st # "ok" THEN [st |-> ps.st, i |-> 0, t |-> ps.t]
         ELSE LET b == Body(T, ps.i) IN IF b.st # "ok" THEN b ELSE Ok(b.i, Nd("fn", "", 0, <<b.t>>, ps.consts, ps.names))

(* a str with interpolations: the concatenation of its parts *)
RECURSIVE Interp(_, _, _)
Interp(T, i, t) ==
    LET a == Expr(T, i) IN
    IF a.st # "ok" THEN a
    ELSE IF T[a.i].k # "iend" THEN No
    ELSE LET p == T[a.i + 1]
             u == Bin("~", Bin("~", t, a.t), Leaf("str", p.s, 0))
         IN IF p.k = "ilast" THEN Ok(a.i + 2, u) ELSE Interp(T, a.i + 2, u)

(* comprehensions, from behind the for to behind the bracket *)
Comp(T, i, o, es, close) ==
    IF ~(IsId(T, i) /\ Is(T, i + 1, "<-")) THEN No
    ELSE LET c == Expr(T, i + 2) IN
         IF c.st # "ok" THEN c
         ELSE LET g == IF Is(T, c.i, "if") THEN Expr(T, c.i + 1) ELSE Ok(c.i, NilT)
                  j == SkipNl(T, g.i)
              IN IF g.st # "ok" THEN g
                 ELSE IF ~Is(T, j, close) THEN No
                 ELSE Ok(j + 1, Nd(o, "", 0, es, IF g.t = NilT THEN <<c.t>> ELSE <<c.t, g.t>>, <<T[i].s>>))
(* a line break before the closing bracket; in front of a comma, it is not defined *)
Close(T, i, close, t) ==
    LET j == SkipNl(T, i) IN
    IF Is(T, j, close) THEN Ok(j + 1, t)
    ELSE IF IsSemi(T, i) /\ (IsOp(T, i + 1, {",", close})) THEN Ood("line break in a literal")
    ELSE No
ListLit(T, i) ==        \* from behind the bracket
    IF Is(T, i, "]") THEN Ok(i + 1, Op("list", <<>>))
    ELSE LET a == Expr(T, i)
             j == SkipNl(T, a.i)
         IN IF a.st # "ok" THEN a
            ELSE IF Is(T, j, "for") THEN Comp(T, j + 1, "lcomp", <<a.t>>, "]")
            ELSE IF ~Is(T, a.i, ",") THEN Close(T, a.i, "]", Op("list", <<a.t>>))
            ELSE LET r == Exprs(T, a.i + 1, ANY, <<a.t>>) IN IF r.st # "ok" THEN [st |-> r.st, i |-> 0, t |-> r.t] ELSE Close(T, r.i, "]", Op("list", r.es))
Pair(T, i) ==
    LET a == Then(T, Expr(T, i), ":") IN
    IF a.st # "ok" THEN a
    ELSE LET b == Expr(T, a.i) IN IF b.st # "ok" THEN b ELSE Ok(b.i, Op("pair", <<a.t, b.t>>))
RECURSIVE Pairs(_, _, _)
Pairs(T, i, acc) ==
    LET a == Pair(T, i) IN
    IF a.st # "ok" THEN a
    ELSE IF Is(T, a.i, ",") THEN Pairs(T, a.i + 1, acc \o a.t.c)
    ELSE Close(T, a.i, "}", Op("table", acc \o a.t.c))
TableLit(T, i) ==
    IF Is(T, i, "}") THEN Ok(i + 1, Op("table", <<>>))
    ELSE LET a == Pair(T, i)
             j == SkipNl(T, a.i)
         IN IF a.st # "ok" THEN a
            ELSE IF Is(T, j, "for") THEN Comp(T, j + 1, "tcomp", a.t.c, "}")
            ELSE IF Is(T, a.i, ",") THEN Pairs(T, a.i + 1, a.t.c)
            ELSE Close(T, a.i, "}", Op("table", a.t.c))

Primary(T, i) ==
    LET t == T[i] IN
    CASE t.k = "int" -> Ok(i + 1, Leaf("int", t.s, t.i))
      [] t.k = "float" -> Ok(i + 1, Leaf("float", "", t.i))
      [] t.k = "str" -> Ok(i + 1, Leaf("str", t.s, 0))
      [] t.k = "istr" -> Interp(T, i + 1, Leaf("str", t.s, 0))
      [] t.k = "id" -> Ok(i + 1, IF t.s \notin LibNames THEN Leaf("var", t.s, 0) ELSE Leaf("libname", t.s, 0))
      [] t.k = "op" /\ t.s = "." -> IF IsId(T, i + 1) THEN Ok(i + 2, Leaf("str", T[i + 1].s, 0)) ELSE No
      [] t.k = "op" /\ t.s = "(" -> Then(T, Expr(T, i + 1), ")")
      [] t.k = "op" /\ t.s = "[" -> ListLit(T, i + 1)
      [] t.k = "op" /\ t.s = "{" -> TableLit(T, i + 1)
      [] t.k = "op" /\ t.s \in {"true", "false"} -> Ok(i + 1, Leaf("bool", "", IF t.s = "true" THEN 1 ELSE 0))
      [] t.k = "op" /\ t.s = "undef" -> Ok(i + 1, UndefT)
      [] t.k = "op" /\ t.s = "fn" -> Func(T, i + 1)
      [] OTHER -> No

(* calls, members and elements of t; of a primary expression, if t is nil *)
Postfix(T, i, t) ==
    IF t = NilT THEN (LET a == Primary(T, i) IN IF a.st # "ok" THEN a ELSE Postfix(T, a.i, a.t))
    ELSE CASE Is(T, i, "(") -> LET a == Args(T, i + 1, <<>>) IN IF a.st # "ok" THEN [st |-> a.st, i |-> 0, t |-> a.t] ELSE Postfix(T, a.i, Op("call", <<t>> \o a.es))
           [] Is(T, i, "->") ->
                IF ~IsId(T, i + 1) THEN (IF Is(T, i + 1, "(") THEN Ood("->(") ELSE No)
                ELSE IF ~Is(T, i + 2, "(") THEN No
                ELSE LET a == Args(T, i + 3, <<>>) IN
                     IF a.st # "ok" THEN [st |-> a.st, i |-> 0, t |-> a.t] ELSE Postfix(T, a.i, Nd("mcall", T[i + 1].s, 0, <<t>> \o a.es, <<>>, <<>>))
           [] Is(T, i, ".") -> IF IsId(T, i + 1) THEN Postfix(T, i + 2, GetT(t, Leaf("str", T[i + 1].s, 0)))
                               ELSE IF Is(T, i + 1, "(") THEN Ood(".(") ELSE No
           [] Is(T, i, "[") ->
                IF Is(T, i + 1, ":")
                THEN LET b == IF Is(T, i + 2, "]") THEN Ok(i + 2, UndefT) ELSE Expr(T, i + 2)
                         r == Then(T, b, "]")
                     IN IF r.st # "ok" THEN r ELSE Postfix(T, r.i, Op("slice", <<t, UndefT, b.t>>))
                ELSE LET a == Expr(T, i + 1) IN
                     IF a.st # "ok" THEN a
                     ELSE IF Is(T, a.i, "]") THEN Postfix(T, a.i + 1, GetT(t, a.t))
                     ELSE IF ~Is(T, a.i, ":") THEN No
                     ELSE LET b == IF Is(T, a.i + 1, "]") THEN Ok(a.i + 1, UndefT) ELSE Expr(T, a.i + 1)
                              r == Then(T, b, "]")
                          IN IF r.st # "ok" THEN r ELSE Postfix(T, r.i, Op("slice", <<t, a.t, b.t>>))
           [] OTHER -> Ok(i, t)

------------------------------------------------------------------------------
(* patterns *)
TypeNames == {"bool", "int", "float", "str", "list", "table"}
PrimPat(T, i) ==
    LET t == T[i]  u == T[i + 1] IN
    CASE t.k \in {"int", "float", "str"} \/ (t.k = "op" /\ t.s \in {"true", "false"}) -> LET a == Primary(T, i) IN Ok(i + 1, Op("plit", <<a.t>>))
      [] Is(T, i, "-") /\ u.k = "int" -> IF u.s # "" THEN Ood("big int") ELSE Ok(i + 2, Op("plit", <<Leaf("int", "", -u.i)>>))
      [] Is(T, i, "-") /\ u.k = "float" -> IF u.i = 0 THEN Ood("-0.0") ELSE Ok(i + 2, Op("plit", <<Leaf("float", "", -u.i)>>))
      [] Is(T, i, ".") /\ u.k = "id" -> Ok(i + 2, Op("plit", <<Leaf("str", u.s, 0)>>))
      [] t.k = "id" /\ t.s \in TypeNames -> Ok(i + 1, Leaf("ptype", t.s, 0))
      [] OTHER -> No
(* the elements of a list or table pattern, up to the closing bracket; kv: pairs *)
RECURSIVE Pats(_, _, _, _, _, _)
Pats(T, i, kv, close, ks, ps) ==
    LET o == IF kv THEN "ptable" ELSE "plist"
        End(j, var, qs, rs) ==      \* behind the last one
            LET h == SkipNl(T, j) IN
            IF Is(T, h, close) THEN Ok(h + 1, Nd(o, "", var, rs, qs, <<>>))
            ELSE IF IsSemi(T, j) /\ IsOp(T, j + 1, {",", close}) THEN Ood("line break in a pattern") ELSE No
        k == IF kv THEN Then(T, PrimPat(T, i), ":") ELSE Ok(i, NilT)
        a == Pattern(T, k.i)
    IN IF Is(T, i, "...") THEN End(i + 1, 1, ks, ps)
       ELSE IF k.st # "ok" THEN k
       ELSE IF kv /\ k.t.o # "plit" THEN Ood("key of a pattern")
       ELSE IF a.st # "ok" THEN a
       ELSE LET qs == IF kv THEN Append(ks, k.t.c[1]) ELSE ks  rs == Append(ps, a.t) IN
            IF Is(T, a.i, ",") THEN Pats(T, a.i + 1, kv, close, qs, rs) ELSE End(a.i, 0, qs, rs)
SinglePat(T, i) ==
    CASE Is(T, i, "*") -> Ok(i + 1, Leaf("pany", "", 0))
      [] Is(T, i, "undef") -> Ok(i + 1, Leaf("pundef", "", 0))
      [] Is(T, i, "let") -> IF IsId(T, i + 1) THEN Ok(i + 2, Leaf("plet", T[i + 1].s, 0)) ELSE No
      [] Is(T, i, "const") -> IF IsId(T, i + 1) THEN Ok(i + 2, Leaf("pconst", T[i + 1].s, 0)) ELSE No
      [] Is(T, i, "[") -> IF Is(T, i + 1, "]") THEN Ok(i + 2, Op("plist", <<>>)) ELSE Pats(T, i + 1, FALSE, "]", <<>>, <<>>)
      [] Is(T, i, "{") -> IF Is(T, i + 1, "}") THEN Ok(i + 2, Op("ptable", <<>>)) ELSE Pats(T, i + 1, TRUE, "}", <<>>, <<>>)
      [] Is(T, i, "(") -> Then(T, Pattern(T, i + 1), ")")
      [] OTHER -> PrimPat(T, i)
Pattern(T, i) ==
    LET a == SinglePat(T, i) IN
    IF a.st # "ok" \/ ~Is(T, a.i, "|") THEN a
    ELSE LET b == Pattern(T, a.i + 1) IN IF b.st # "ok" THEN b ELSE Ok(b.i, Op("palt", <<a.t, b.t>>))

------------------------------------------------------------------------------
(* statements *)
(* up to the closing token, or the end of the text if it is ""; c: those before *)
Stmts(T, i, close, c) ==
    IF IF close = "" THEN T[i].k = "eof" ELSE Is(T, i, close) THEN Ok(i + 1, Op(IF close = "" THEN "file" ELSE "block", c))
    ELSE LET a == Stmt(T, i) IN
         IF a.st # "ok" THEN a
         ELSE IF ~IsSemi(T, a.i) THEN No
         ELSE Stmts(T, a.i + 1, close, Append(c, a.t))
Body(T, i) == IF Is(T, i, "{") THEN Stmts(T, i + 1, "}", <<>>) ELSE No

AugOps == {"^=", "*=", "/=", "//=", "%=", "+=", "-=", ">>=", "<<=", "||=", "&&=", "~=", "&=", "&^=", "**=", "|=", "??="}
(* a single assignment, or an expression *)
Simple(T, i) ==
    LET a == Expr(T, i) IN
    IF a.st # "ok" THEN a
    ELSE IF ~IsOp(T, a.i, AugOps \union {"="}) THEN
        (IF Is(T, a.i, ",") /\ a.t.o = "get" THEN Ok(a.i, a.t) ELSE Ok(a.i, Op("expr", <<a.t>>)))
    ELSE IF a.t.o = "libname" \/ (Is(T, a.i - 1, ")") /\ a.t.o \in {"var", "get"}) THEN Ood("target of an assignment")
    ELSE IF a.t.o \notin {"var", "get"} THEN No
    ELSE LET e == Expr(T, a.i + 1)
             o == T[a.i].s
             v == IF o = "=" THEN e.t ELSE Bin(Sub(o, 1, Len(o) - 1), a.t, e.t)
         IN IF e.st # "ok" THEN e
            ELSE IF a.t.o = "var" THEN Ok(e.i, Nd("assign", a.t.s, 0, <<v>>, <<>>, <<>>))
            ELSE Ok(e.i, Op("setst", <<a.t.c[1], a.t.c[2], v>>))

(* targets of a declaration or of an assignment to several of them, the first ones of which are ts, and their values *)
Target(T, i) ==
    IF IsOp(T, i, {"let", "const"}) THEN (IF IsId(T, i + 1) THEN Ok(i + 2, Leaf("letv", T[i + 1].s, IF Is(T, i, "const") THEN 1 ELSE 0)) ELSE No)
    ELSE LET a == Postfix(T, i, NilT) IN
         IF a.st # "ok" THEN a
         ELSE IF a.t.o = "libname" \/ Is(T, a.i - 1, ")") THEN (IF a.t.o \in {"var", "get", "libname"} THEN Ood("target of an assignment") ELSE No)
         ELSE IF a.t.o = "var" THEN Ok(a.i, Leaf("tovar", a.t.s, 0))
         ELSE IF a.t.o = "get" THEN a ELSE No
DeclOf(ts, es) ==
    IF \A i \in 1..Len(ts) : ts[i].o = "letv"
    THEN Nd("let", "", 0, es, SelectSeq([i \in 1..Len(ts) |-> IF ts[i].i = 1 THEN i ELSE 0], LAMBDA n : n # 0), [i \in 1..Len(ts) |-> ts[i].s])
    ELSE Nd("masgn", "", 0, es, ts, <<>>)
RECURSIVE DeclFrom(_, _, _)
DeclFrom(T, i, ts) ==
    IF Is(T, i, ",") THEN LET a == Target(T, i + 1) IN IF a.st # "ok" THEN a ELSE DeclFrom(T, a.i, Append(ts, a.t))
    ELSE IF ~Is(T, i, "=") THEN No
    ELSE LET r == Exprs(T, i + 1, Len(ts), <<>>) IN IF r.st # "ok" THEN [st |-> r.st, i |-> 0, t |-> r.t] ELSE Ok(r.i, DeclOf(ts, r.es))
Decl(T, i) == LET a == Target(T, i) IN IF a.st # "ok" THEN a ELSE DeclFrom(T, a.i, <<a.t>>)

FnStmt(T, i, const) ==      \* from behind the fn
    LET n == T[i].s IN
    IF Is(T, i + 1, ".") THEN
        (IF ~IsId(T, i + 2) \/ const THEN No
         ELSE IF n \in LibNames THEN Ood("target of an assignment")
         ELSE LET f == Func(T, i + 3) IN IF f.st # "ok" THEN f ELSE Ok(f.i, Op("setst", <<Leaf("var", n, 0), Leaf("str", T[i + 2].s, 0), f.t>>)))
    ELSE LET f == Func(T, i + 1) IN IF f.st # "ok" THEN f ELSE Ok(f.i, Nd("fnlet", n, IF const THEN 1 ELSE 0, <<f.t>>, <<>>, <<>>))

Wrap(r, o) == IF r.st # "ok" THEN r ELSE Ok(r.i, Op(o, <<r.t>>))
RECURSIVE IfStmt(_, _)
IfStmt(T, i) ==             \* from behind the if
    LET c == Expr(T, i) IN
    IF c.st # "ok" THEN c
    ELSE LET b == Body(T, c.i) IN
         IF b.st # "ok" THEN b
         ELSE IF Is(T, b.i, "else") THEN LET e == Body(T, b.i + 1) IN IF e.st # "ok" THEN e ELSE Ok(e.i, Op("if", <<c.t, b.t, e.t>>))
         ELSE IF Is(T, b.i, "elseif") THEN LET e == IfStmt(T, b.i + 1) IN IF e.st # "ok" THEN e ELSE Ok(e.i, Op("if", <<c.t, b.t, e.t>>))
         ELSE Ok(b.i, Op("if", <<c.t, b.t>>))
ForStmt(T, i) ==
    IF Is(T, i, "let") THEN
        (IF ~(IsId(T, i + 1) /\ Is(T, i + 2, "=")) THEN No
         ELSE LET e == Expr(T, i + 3) IN
              IF e.st # "ok" THEN e ELSE IF ~IsSemi(T, e.i) THEN No
              ELSE LET c == Expr(T, e.i + 1) IN
                   IF c.st # "ok" THEN c ELSE IF ~IsSemi(T, c.i) THEN No
                   ELSE LET p == Simple(T, c.i + 1) IN
                        IF p.st # "ok" THEN p
                        ELSE LET b == Body(T, p.i) IN
                             IF b.st # "ok" THEN b
                             ELSE Ok(b.i, Op("forc", <<Nd("let", "", 0, <<e.t>>, <<>>, <<T[i + 1].s>>), c.t, p.t, b.t>>)))
    ELSE IF ~(IsId(T, i) /\ Is(T, i + 1, "<-")) THEN No
    ELSE LET c == Expr(T, i + 2) IN
         IF c.st # "ok" THEN c
         ELSE LET b == Body(T, c.i) IN IF b.st # "ok" THEN b ELSE Ok(b.i, Nd("forin", "", 0, <<c.t, b.t>>, <<>>, <<T[i].s>>))
RECURSIVE Arms(_, _, _, _)
Arms(T, i, subj, c) ==
    IF Is(T, i, "}") THEN Ok(i + 1, Nd("match", "", 0, c, <<subj>>, <<>>))
    ELSE LET p == Pattern(T, i) IN
         IF p.st # "ok" THEN p
         ELSE LET g == IF Is(T, p.i, "if") THEN Expr(T, p.i + 1) ELSE Ok(p.i, NilT) IN
              IF g.st # "ok" THEN g
              ELSE LET b == Body(T, g.i) IN
                   IF b.st # "ok" THEN b ELSE IF ~IsSemi(T, b.i) THEN No
                   ELSE Arms(T, b.i + 1, subj, Append(c, Nd("arm", "", 0, <<p.t, b.t>>, IF g.t = NilT THEN <<>> ELSE <<g.t>>, <<>>)))

Stmt(T, i) ==
    LET s == IF T[i].k = "op" THEN T[i].s ELSE "" IN
    CASE s = "echo" -> Wrap(Expr(T, i + 1), "echo")
      [] s = "fn" /\ IsId(T, i + 1) -> FnStmt(T, i + 1, FALSE)
      [] s = "const" /\ Is(T, i + 1, "fn") -> IF IsId(T, i + 2) THEN FnStmt(T, i + 2, TRUE) ELSE No
      [] s = "return" -> LET r == Exprs(T, i + 1, ANY, <<>>) IN IF r.st # "ok" THEN [st |-> r.st, i |-> 0, t |-> r.t] ELSE Ok(r.i, Op("return", r.es))
      [] s = "export" -> Wrap(Expr(T, i + 1), "export")
      [] s = "assert" -> Wrap(Expr(T, i + 1), "assert")
      [] s = "let" \/ (s = "const" /\ ~Is(T, i + 1, "fn")) -> Decl(T, i)
      [] s = "for" -> ForStmt(T, i + 1)
      [] s = "while" -> LET c == Expr(T, i + 1) IN
                        IF c.st # "ok" THEN c ELSE LET b == Body(T, c.i) IN IF b.st # "ok" THEN b ELSE Ok(b.i, Op("while", <<c.t, b.t>>))
      [] s \in {"break", "continue"} -> Ok(i + 1, Leaf(s, "", 0))
      [] s = "match" -> LET c == Then(T, Expr(T, i + 1), "{") IN IF c.st # "ok" THEN c ELSE Arms(T, c.i, c.t, <<>>)
      [] s = "if" -> IfStmt(T, i + 1)
      [] IsId(T, i) /\ Is(T, i + 1, ",") -> Decl(T, i)
      [] OTHER -> LET a == Simple(T, i) IN
                  IF a.st = "ok" /\ Is(T, a.i, ",") /\ a.t.o = "get" THEN (IF Is(T, a.i - 1, ")") THEN Ood("target of an assignment") ELSE DeclFrom(T, a.i, <<a.t>>)) ELSE a

(* what declares a name of a library, or uses one in an unknown way, is out of the domain *)
RECURSIVE Odd(_)
Odd(t) == \/ t.o = "libname"
          \/ t.o \in {"fn", "let", "forin", "lcomp", "tcomp"} /\ \E i \in 1..Len(t.p) : t.p[i] \in LibNames
          \/ t.o \in {"letv", "tovar", "assign", "fnlet", "plet", "pconst"} /\ t.s \in LibNames
          \/ \E i \in 1..Len(t.c) : Odd(t.c[i])
          \/ t.o \notin {"fn", "let"} /\ \E i \in 1..Len(t.q) : Odd(t.q[i])
Program(T) ==
    LET r == Stmts(T, 1, "", <<>>) IN
    IF r.st = "ok" /\ Odd(r.t) THEN Ood("use of a library") ELSE r
==============================================================================
