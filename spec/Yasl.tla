-------------------------------- MODULE Yasl --------------------------------
(***************************************************************************)
(* The YASL language as a state machine.                                   *)
(*                                                                         *)
(* A program is a tree of nodes; the state m of its execution has          *)
(*   k    the control stack: what is left to do, innermost last            *)
(*   vs   the stack of intermediate values                                 *)
(*   env  the variables in scope: a function from names to locations       *)
(*   st   the store: the value at each location                            *)
(*   hp   the heap                                                         *)
(*   pos  how much of the recorded output has been produced                *)
(*   d    the number of active calls                                       *)
(*   ph   "run", or how the execution ended                                *)
(*   reg  the metatables the host has given names                          *)
(*   code the error it ended with                                          *)
(*   ln   the line of the statement being executed (0: unknown)            *)
(*   tr   the lines an error is reported with: of the statement that       *)
(*        failed, and of the active calls, innermost first                 *)
(* Every step takes the innermost thing to do off the control stack.       *)
(*                                                                         *)
(* The recorded output of the real interpreter enters in exactly one       *)
(* place, Emit: a step that prints is only enabled as printing what was    *)
(* really printed there, and otherwise ends the execution as a mismatch.   *)
(***************************************************************************)
EXTENDS Builtins

CONSTANT Node(_, _)       \* the node of a program, by its number
CONSTANT Recorded(_)      \* what the interpreter printed for the program
CONSTANT Host(_)          \* the functions of the host: [n: the number of parameters, c: the calls of the API it makes]
CONSTANT WithObjs(_)      \* whether it has host objects, which print their number when they are destroyed
CONSTANT Truncated(_)     \* whether it was stopped for taking too long: only then may the end of the output be missing
CONSTANT Mods(_)          \* the modules: the roots of their programs, 0 for text that is no program
VARIABLE m

OVERFLOW_FROM == 90       \* calls nested deeper than this may overflow the stack,
OVERFLOW_AT == 1000       \* deeper than this they have to

EvF(n, w) == [op |-> "ev", n |-> n, w |-> w]
SINGLE == 1   MULTI == 0   DROP == 2      \* how many results are wanted
SHOW == 3                                  \* and print it

Init0(pid, root) ==
    [pid |-> pid, k |-> <<EvF(root, SINGLE)>>, vs |-> <<>>, env |-> <<>>, st |-> <<>>, hp |-> <<>>,
     pos |-> 0, d |-> 0, ph |-> "run", reg |-> [x \in {} |-> 0], code |-> 0, ln |-> 0, tr |-> <<>>,
     top |-> <<>>,          \* in a session: the variables that are there for the next input
     oks |-> <<>>]          \* in a session: which inputs are accepted; with modules: which of them are

------------------------------------------------------------------------------
(* building blocks of steps: they map states to states *)
DropTo(x, b) == [x EXCEPT !.vs = SubSeq(@, 1, b)]
PushK(x, f) == [x EXCEPT !.k = Append(@, f)]
PushKs(x, fs) == [x EXCEPT !.k = @ \o fs]
GoOodW(x, why) == [x EXCEPT !.ph = "ood", !.k = <<>>, !.vs = <<StrV(why)>>]
GoOod(x) == GoOodW(x, "unmodelled value")
\* calls whose arguments are still being evaluated may be reported, too
CallLines(k) == LET R == SelectSeq(k, LAMBDA f : f.op \in {"ret", "app"})
                IN [i \in 1..Len(R) |-> [l |-> R[Len(R) + 1 - i].ln, r |-> R[Len(R) + 1 - i].op = "ret"]]
InSession(x) == Len(x.k) > 0 /\ x.k[1].op = "inputs"
(* modules that are being run *)
InModule(x) == \E j \in 1..Len(x.k) : x.k[j].op = "module"
ModuleAt(k) == CHOOSE j \in 1..Len(k) : k[j].op = "module" /\ \A l \in (j + 1)..Len(k) : k[l].op # "module"
DepthOf(k) == Cardinality({j \in 1..Len(k) : k[j].op \in {"ret", "host"}})
OutOfModule(x) == LET j == ModuleAt(x.k)  r == x.k[j] IN
                  [x EXCEPT !.k = SubSeq(@, 1, j - 1), !.env = r.e, !.vs = SubSeq(@, 1, r.b), !.d = DepthOf(SubSeq(x.k, 1, j - 1)), !.ln = r.ln]
NotAModule(x) == LET y == OutOfModule(x) IN [y EXCEPT !.k = Append(@, [op |-> "modfail"])]
FailAt(x, c, in) == IF c = OODERR THEN GoOod(x)
                    ELSE IF InModule(x) THEN NotAModule(x)
                    ELSE IF InSession(x) THEN [x EXCEPT !.k = <<Head(@), [op |-> "fin", c |-> c]>>, !.vs = <<>>, !.d = 0]
                    ELSE [x EXCEPT !.ph = "end", !.code = c, !.tr = <<[l |-> x.ln, r |-> TRUE]>> \o in \o CallLines(x.k), !.k = <<>>, !.vs = <<>>]
Fail(x, c) == FailAt(x, c, <<>>)
FailIn(x, c) == FailAt(x, c, <<[l |-> x.ln, r |-> FALSE]>>)      \* in a builtin function
MAXSTR == 400             \* longer strs are out of the domain
PV(x, v) == IF IsOod(v) THEN GoOodW(x, "number out of range") ELSE IF v.t = "str" /\ Len(v.s) > MAXSTR THEN GoOodW(x, "long str") ELSE [x EXCEPT !.vs = Append(@, v)]
TopV(x) == Last(x.vs)
NthV(x, j) == x.vs[Len(x.vs) - j]        \* 0: the top
PopV(x, j) == [x EXCEPT !.vs = SubSeq(@, 1, Len(@) - j)]

(* leave the results of a call on the stack, as many as are wanted *)
Results(x, vals, w) ==
    CASE w = MULTI -> [x EXCEPT !.vs = @ \o vals]
      [] w = SINGLE -> [x EXCEPT !.vs = Append(@, IF vals = <<>> THEN UNDEF ELSE vals[1])]
      [] OTHER -> x

(* the variables a statement declares *)
Declared(pid, n) ==
    LET nd == Node(pid, n) IN
    CASE nd.o = "let" -> nd.p
      [] nd.o = "fnlet" -> <<nd.s>>
      [] nd.o = "masgn" -> LET L == SelectSeq(nd.q, LAMBDA t : Node(pid, t).o = "letv") IN [i \in 1..Len(L) |-> Node(pid, L[i]).s]
      [] OTHER -> <<>>

(* variables *)
Bind(x, name, v) == [x EXCEPT !.st = Append(@, v), !.env = (name :> (Len(x.st) + 1)) @@ @]
RECURSIVE BindAll(_, _, _, _)
BindAll(x, names, vals, i) == IF i > Len(names) THEN x ELSE BindAll(Bind(x, names[i], vals[i]), names, vals, i + 1)

(* atoms: expressions whose evaluation takes no step of its own *)
AtomOps == {"int", "float", "str", "bool", "undef", "var", "lib", "fconst"}
IsAtom(x, n) == Node(x.pid, n).o \in AtomOps
AtomV(x, n) ==
    LET nd == Node(x.pid, n) IN
    CASE nd.o = "int" -> Val("int", nd.i, nd.s)
      [] nd.o = "float" -> Val("float", nd.i, "")
      [] nd.o = "fconst" -> Val("float", 0, nd.s)
      [] nd.o = "str" -> StrV(nd.s)
      [] nd.o = "bool" -> BoolV(nd.i = 1)
      [] nd.o = "undef" -> UNDEF
      [] nd.o = "lib" -> CfnV(nd.s)
      [] nd.o = "var" -> x.st[x.env[nd.s]]

RECURSIVE Leading(_, _, _)
Leading(x, ns, i) == IF i <= Len(ns) /\ IsAtom(x, ns[i]) THEN Leading(x, ns, i + 1) ELSE i - 1
(* evaluate the nodes ns from left to right, the last one with w results, and then do kont *)
Evs(x, ns, w, kont) ==
    LET j == Leading(x, ns, 1)
        n == Len(ns)
    IN [x EXCEPT !.vs = @ \o [i \in 1..j |-> AtomV(x, ns[i])],
                 !.k = @ \o kont \o [i \in 1..(n - j) |-> EvF(ns[n + 1 - i], IF i = 1 THEN w ELSE SINGLE)]]
IsCall(x, n) == Node(x.pid, n).o \in {"call", "mcall"}
LastW(x, ns) == IF ns # <<>> /\ IsCall(x, Last(ns)) THEN MULTI ELSE SINGLE

------------------------------------------------------------------------------
(* looking things up *)
MtOf(x, v) == IF v.t \in {"list", "table", "set", "obj"} THEN x.hp[v.i].mt ELSE 0
(* the function that implements the operation called name for v, or NONE *)
MtLookup(x, v, name) == IF MtOf(x, v) # 0 THEN TGet(x.hp[MtOf(x, v)], StrV(name)) ELSE Method(v.t, StrV(name))

Callable(v) == v.t \in {"fn", "cfn"}

(* call f: the set of the states it can lead to *)
CallV(x, f, args, w) ==
    IF f.t = "cfn" /\ f.s \in DOMAIN Host(x.pid) THEN
        LET n == Host(x.pid)[f.s].n
            fixed == -n - 1      \* any number of arguments after these: their number is put in between
            z == [x EXCEPT !.k = Append(@, [op |-> "host", s |-> f.s, i |-> 1, b |-> Len(x.vs), w |-> w, ln |-> x.ln]), !.d = @ + 1,
                           !.vs = @ \o (IF n >= 0 THEN Pad(args, n)
                                        ELSE Pad(args, fixed) \o <<IntV(IF Len(args) > fixed THEN Len(args) - fixed ELSE 0)>> \o SubSeq(args, fixed + 1, Len(args)))]
        IN IF Len(z.vs) > 600 THEN {GoOodW(x, "many values")} ELSE
           (IF x.d + 1 < OVERFLOW_AT THEN {z} ELSE {}) \union (IF x.d + 1 >= OVERFLOW_FROM THEN {Fail(x, OVERFLOW)} ELSE {})
    ELSE IF f = CfnV("require") THEN
        LET a == Pad(args, 1)[1]
            y == PushK(x, [op |-> "module", e |-> x.env, b |-> Len(x.vs), w |-> w, ln |-> x.ln])
        IN IF a.t # "str" THEN {Fail(x, TYPE)}
           ELSE IF a.s \notin DOMAIN Mods(x.pid) THEN {Fail(x, ERROR)}
           ELSE IF Mods(x.pid)[a.s] = 0 THEN {NotAModule(y)}
           ELSE IF ~x.oks[a.s] THEN {NotAModule(y)}
           ELSE {PushK([y EXCEPT !.env = <<>>], EvF(Mods(x.pid)[a.s], SINGLE))}
    ELSE IF f.t = "cfn" THEN
        { IF r.e = OODERR THEN GoOodW(x, f.s) ELSE IF r.e # 0 THEN FailIn(x, r.e) ELSE Results([x EXCEPT !.hp = r.hp], r.v, w) : r \in Cfn(f.s, args, x.hp) }
    ELSE IF f.t = "fn" THEN
        LET o == x.hp[f.i]
            nd == Node(x.pid, o.n)
            y == [x EXCEPT !.k = @ \o <<[op |-> "ret", b |-> Len(x.vs), e |-> x.env, w |-> w, ln |-> x.ln], EvF(nd.c[1], SINGLE)>>,
                           !.env = o.env, !.d = @ + 1]
            z == BindAll(y, nd.p, Pad(args, Len(nd.p)), 1)
        IN (IF x.d + 1 < OVERFLOW_AT THEN {z} ELSE {}) \union
           (IF x.d + 1 >= OVERFLOW_FROM THEN {Fail(x, OVERFLOW)} ELSE {})
    ELSE {Fail(x, TYPE)}

Alloc(x, o, t) == PV([x EXCEPT !.hp = Append(@, o)], Ref(t, Len(x.hp) + 1))

------------------------------------------------------------------------------
(* operators *)
Overload == [s \in {"+", "-", "*", "/", "//", "%", "**", "|", "^", "&", "&^", "<<", ">>", "<", "<=", ">", ">="} |->
    CASE s = "+" -> "__add" [] s = "-" -> "__sub" [] s = "*" -> "__mul" [] s = "/" -> "__div" [] s = "//" -> "__idiv"
      [] s = "%" -> "__mod" [] s = "**" -> "__pow" [] s = "|" -> "__bor" [] s = "^" -> "__bxor" [] s = "&" -> "__band"
      [] s = "&^" -> "__bandnot" [] s = "<<" -> "__bshl" [] s = ">>" -> "__bshr"
      [] s = "<" -> "__lt" [] s = "<=" -> "__le" [] s = ">" -> "__gt" [] s = ">=" -> "__ge"]

SmallIntOp(s, a, b) ==      \* NONE if it does not fit into the integers of TLC
    CASE s = "+" -> IntV(a + b)
      [] s = "-" -> IntV(a - b)
      [] s = "*" -> IF MulOk(a, b) THEN IntV(a * b) ELSE NONE
      [] s = "//" -> IntV(TDiv(a, b))
      [] s = "%" -> IntV(TMod(a, b))
      [] s = "|" -> IntV(BOr(a, b))
      [] s = "&" -> IntV(BAnd(a, b))
      [] s = "^" -> IntV(BXor(a, b))
      [] s = "&^" -> IntV(BAnd(a, BNot(b)))
      [] s = "<<" -> IF b < 0 \/ b > 63 THEN OOD ELSE IF b <= 29 /\ MulOk(a, Pow2(b)) THEN IntV(a * Pow2(b)) ELSE NONE
      [] s = ">>" -> IF b < 0 \/ b > 63 THEN OOD ELSE IF b > 29 THEN IntV(IF a < 0 THEN -1 ELSE 0) ELSE IntV(a \div Pow2(b))
      [] s = "**" -> IF b >= 0 THEN PowI(a, b)
                     ELSE IF a = 0 THEN INFV(FALSE)
                     ELSE IF b < -30 THEN OOD
                     ELSE LET r == PowI(a, -b) IN IF IsOod(r) \/ ~Small(r) THEN OOD ELSE IF 64 % Abs(r.i) = 0 THEN FltV(TDiv(64, r.i)) ELSE OOD
BigIntOp(s, a, b) ==
    LET x == Limbs(a)  y == Limbs(b) IN
    CASE s = "+" -> OfLimbs(I64!AddL(x, y))
      [] s = "-" -> OfLimbs(I64!SubL(x, y))
      [] s = "*" -> OfLimbs(I64!MulL(x, y))
      [] s = "//" -> OfLimbs(I64!DivL(x, y))
      [] s = "%" -> OfLimbs(I64!ModL(x, y))
      [] s = "|" -> OfLimbs(I64!OrL(x, y))
      [] s = "&" -> OfLimbs(I64!AndL(x, y))
      [] s = "^" -> OfLimbs(I64!XorL(x, y))
      [] s = "&^" -> OfLimbs(I64!AndL(x, I64!NotL(y)))
      [] s = "<<" -> IF NumI(b) < 0 \/ NumI(b) > 63 THEN OOD ELSE OfLimbs(I64!ShlL(x, b.i))
      [] s = ">>" -> IF NumI(b) < 0 \/ NumI(b) > 63 THEN OOD ELSE OfLimbs(I64!ShrL(x, b.i))
      [] s = "**" -> OOD
IntOp(s, a, b) ==
    LET r == IF Small(a) /\ Small(b) THEN SmallIntOp(s, a.i, b.i) ELSE NONE IN IF r = NONE THEN BigIntOp(s, a, b) ELSE r
FltOp(s, a0, b0) ==
    LET a == ToF(a0)  b == ToF(b0) IN
    IF IsOod(a) \/ IsOod(b) THEN OOD ELSE
    CASE s = "+" -> FAdd(a, b) [] s = "-" -> FSub(a, b) [] s = "*" -> FMul(a, b) [] s = "/" -> FDiv(a, b) [] s = "**" -> FPow(a, b)

CmpHolds(s, c) == CASE s = "<" -> c = "lt" [] s = "<=" -> c \in {"lt", "eq"} [] s = ">" -> c = "gt" [] s = ">=" -> c \in {"gt", "eq"}

(* the result of a binary operator on operands it is built in for; NONE if it is up to the metatable *)
BinBuiltin(s, a, b) ==
    CASE s \in {"+", "-", "*", "**"} /\ IsNum(a) /\ IsNum(b) ->
            IF a.t = "int" /\ b.t = "int" THEN IntOp(s, a, b) ELSE FltOp(s, a, b)
      [] s = "/" /\ IsNum(a) /\ IsNum(b) -> FltOp(s, a, b)
      [] s \in {"//", "%", "|", "&", "^", "&^", "<<", ">>"} /\ a.t = "int" /\ b.t = "int" -> IntOp(s, a, b)
      [] s \in {"<", "<=", ">", ">="} /\ IsNum(a) /\ IsNum(b) ->
            LET c == CmpNum(a, b) IN IF c = "ood" THEN OOD ELSE BoolV(CmpHolds(s, c))
      [] s \in {"<", "<=", ">", ">="} /\ a.t = "str" /\ b.t = "str" -> BoolV(CmpHolds(s, CmpStr(a.s, b.s)))
      [] OTHER -> NONE

DoBin(x, s) ==
    LET b == NthV(x, 0)
        a == NthV(x, 1)
        y == PopV(x, 2)
        r == BinBuiltin(s, a, b)
        f == MtLookup(x, a, Overload[s])
    IN CASE s \in {"==", "!="} ->
               {PushKs(x, IF s = "==" THEN <<[op |-> "eq"]>> ELSE <<[op |-> "unop", s |-> "!"], [op |-> "eq"]>>)}
         [] s \in {"===", "!=="} ->
               \* whether two strs with the same text are the same object is not specified
               IF a.t = b.t /\ ((a.t = "str" /\ a.s = b.s) \/ a.t = "undef") THEN {PV(y, TRUEV), PV(y, FALSEV)}
               ELSE IF a.t \in {"cfn", "fn"} /\ a.t = b.t THEN {GoOodW(x, "identity of " \o a.t)}
               ELSE IF Nan(a) /\ a.t = "float" /\ b.t = "float" THEN {GoOod(x)}
               ELSE {PV(y, BoolV((a = b) = (s = "===")))}
         [] s = "~" -> {PushKs(x, <<[op |-> "cat2"], [op |-> "tostr"]>>)}
         [] s \in {"//", "%"} /\ b = IntV(0) -> {Fail(x, DIV0)}
         [] r # NONE -> {PV(y, r)}
         [] f = NONE -> {Fail(x, TYPE)}
         [] OTHER -> CallV(y, f, <<a, b>>, SINGLE)

DoUn(x, s) ==
    LET v == TopV(x)
        y == PopV(x, 1)
        Over(name) == LET f == MtLookup(x, v, name) IN IF f = NONE THEN {Fail(x, TYPE)} ELSE CallV(y, f, <<v>>, SINGLE)
    IN CASE s = "!" -> {PV(y, BoolV(Falsey(v)))}
         [] s = "-" -> IF v.t = "int" THEN {PV(y, IF Small(v) THEN IntV(-v.i) ELSE OfLimbs(I64!NegateL(Limbs(v))))} ELSE IF v.t = "float" THEN {PV(y, FNeg(v))} ELSE Over("__neg")
         [] s = "+" -> IF IsNum(v) THEN {x} ELSE Over("__pos")
         [] s = "^" -> IF v.t = "int" THEN {PV(y, IF Small(v) THEN IntV(BNot(v.i)) ELSE OfLimbs(I64!NotL(Limbs(v))))} ELSE Over("__bnot")
         [] s = "len" -> IF v.t = "str" THEN {PV(y, IntV(Len(v.s)))} ELSE Over("__len")

(* == on the two values on top of the stack *)
EqScalarRun(p, i) ==   \* the first pair from i on that is not a pair of equal scalars
    LET S == {j \in i..Len(p) : ~ScalarEq(p[j][1], p[j][2])} IN IF S = {} THEN Len(p) + 1 ELSE MinOf(S)
DoEqs(x, p, i0) ==
    LET i == EqScalarRun(p, i0) IN
    IF i > Len(p) THEN {PV(x, TRUEV)}
    ELSE {PushKs([x EXCEPT !.vs = @ \o <<p[i][1], p[i][2]>>], <<[op |-> "eqs", p |-> p, i |-> i + 1], [op |-> "eq"]>>)}
DoEq(x) ==
    LET b == NthV(x, 0)
        a == NthV(x, 1)
        y == PopV(x, 2)
        f == MtLookup(x, a, "__eq")
        oa == x.hp[a.i]
        ob == x.hp[b.i]
        Opaque == {"set", "obj", "file"}
    IN IF ~((a.t = b.t /\ a.t \in {"list", "table"}) \/ (a.t \in Opaque /\ b.t \in Opaque)) THEN {PV(y, BoolV(ScalarEq(a, b)))}
       ELSE IF f = NONE THEN {Fail(x, TYPE)}
       ELSE IF f = CfnV("list.__eq") /\ a.t = "list" THEN
            IF oa.u \/ ob.u THEN {GoOod(x)}
            ELSE IF Len(oa.a) # Len(ob.a) THEN {PV(y, FALSEV)}
            ELSE DoEqs(y, [j \in 1..Len(oa.a) |-> <<oa.a[j], ob.a[j]>>], 1)
       ELSE IF f = CfnV("table.__eq") /\ a.t = "table" THEN
            IF Len(oa.k) # Len(ob.k) THEN {PV(y, FALSEV)}
            ELSE IF \E j \in 1..Len(oa.k) : TGet(ob, oa.k[j]) = NONE THEN {PV(y, FALSEV)}
            ELSE DoEqs(y, [j \in 1..Len(oa.k) |-> <<oa.a[j], TGet(ob, oa.k[j])>>], 1)
       ELSE CallV(y, f, <<a, b>>, SINGLE)

------------------------------------------------------------------------------
(* text *)
Emit(x, str) ==
    LET out == Recorded(x.pid)
        s == Printed(str) \o "\n"
        left == Len(out) - x.pos
    IN IF Truncated(x.pid) /\ left < Len(s) THEN
          (IF Sub(out, x.pos + 1, Len(out)) = Sub(s, 1, left) THEN [x EXCEPT !.pos = Len(out)]
           ELSE [x EXCEPT !.ph = "mismatch", !.k = <<>>, !.vs = <<StrV(str)>>])
       ELSE IF Sub(out, x.pos + 1, x.pos + Len(s)) = s THEN [x EXCEPT !.pos = @ + Len(s)]
       ELSE [x EXCEPT !.ph = "mismatch", !.k = <<>>, !.vs = <<StrV(str)>>]

------------------------------------------------------------------------------
(* What refers to what: object i of the heap is the node i, location l of the store the node -l *)
RECURSIVE NamesUsed(_, _)
RECURSIVE NamesBound(_, _)
Children(nd) == {nd.c[i] : i \in 1..Len(nd.c)} \union (IF nd.o \in {"fn", "let"} THEN {} ELSE {nd.q[i] : i \in 1..Len(nd.q)})
NamesUsed(pid, n) == LET nd == Node(pid, n) IN
    (IF nd.o \in {"var", "assign", "tovar"} THEN {nd.s} ELSE {}) \union UNION {NamesUsed(pid, c) : c \in Children(nd)}
NamesBound(pid, n) == LET nd == Node(pid, n) IN
    (IF nd.o \in {"plet", "pconst", "letv", "fnlet"} THEN {nd.s} ELSE {}) \union {nd.p[i] : i \in 1..Len(nd.p)}
    \union UNION {NamesBound(pid, c) : c \in Children(nd)}
RefNodes(seq) == {seq[i].i : i \in {j \in 1..Len(seq) : IsRef(seq[j])}}
\* sure: only the variables that a function certainly refers to; otherwise all it may refer to
Succs(x, n, sure) ==
    IF n < 0 THEN RefNodes(<<x.st[-n]>>)
    ELSE LET o == x.hp[n] IN
         IF o.t = "fn" THEN {-o.env[name] : name \in (NamesUsed(x.pid, o.n) \ (IF sure THEN NamesBound(x.pid, o.n) ELSE {})) \intersect DOMAIN o.env}
         ELSE RefNodes(o.a) \union (IF o.mt # 0 THEN {o.mt} ELSE {})
RECURSIVE ReachFrom(_, _, _)
ReachFrom(x, S, new) == IF new = {} THEN S
    ELSE LET T == UNION {Succs(x, n, TRUE) : n \in new} IN ReachFrom(x, S \union T, T \ S)
EnvNodes(e) == {-e[name] : name \in DOMAIN e}
FrameRoots(f) ==
    (IF "e" \in DOMAIN f THEN EnvNodes(f.e) ELSE {}) \union (IF "e0" \in DOMAIN f THEN EnvNodes(f.e0) ELSE {})
    \union (IF "v" \in DOMAIN f THEN RefNodes(<<f.v>>) ELSE {}) \union (IF "vals" \in DOMAIN f THEN RefNodes(f.vals) ELSE {})
\* what the program can reach
Reachable(x) == LET R == RefNodes(x.vs) \union EnvNodes(x.env) \union UNION {FrameRoots(x.k[i]) : i \in 1..Len(x.k)}
                IN IF x.ph = "run" THEN ReachFrom(x, R, R) ELSE {}
\* what is part of a cycle, or only referred to by what is
RECURSIVE Peel(_, _)
Peel(x, S) == LET T == S \intersect UNION {Succs(x, n, FALSE) : n \in S} IN IF T = S THEN S ELSE Peel(x, T)
Cyclic(x) == Peel(x, 1..Len(x.hp) \union {-l : l \in 1..Len(x.st)})

(* host objects are destroyed once, and not as long as they can be reached *)
LineEnd(out, p) == CHOOSE q \in p..Len(out) + 1 : (q = Len(out) + 1 \/ Ch(out, q) = "\n") /\ \A j \in p..q - 1 : Ch(out, j) # "\n"
RECURSIVE Deaths0(_)
Deaths0(x) ==
    LET out == Recorded(x.pid) IN
    IF Ch(out, x.pos + 1) # "~" THEN x
    ELSE LET q == LineEnd(out, x.pos + 1)
             no == Sub(out, x.pos + 2, q - 1)
             D == {i \in 1..Len(x.hp) : x.hp[i].t = "obj" /\ ~x.hp[i].gone /\ ToString(x.hp[i].n) = no} \ Reachable(x)
         IN IF D = {} THEN x       \* perhaps later
            ELSE Deaths0([x EXCEPT !.hp[CHOOSE i \in D : TRUE].gone = TRUE, !.pos = q])
Deaths(x) == IF WithObjs(x.pid) THEN Deaths0(x) ELSE x

(* replace the value on top of the stack by its text *)
DoToStr(x) ==
    LET v == TopV(x)
        y == PopV(x, 1)
        f == MtLookup(x, v, "tostr")
    IN IF MtOf(x, v) # 0 THEN
          IF f = NONE THEN {Fail(x, TYPE)} ELSE CallV(PushK(y, [op |-> "ckstr"]), f, <<v>>, SINGLE)
       ELSE IF NoText(x.hp, v) THEN {Fail(x, TYPE)}
       ELSE IF ~TextOk(x.hp, v) THEN {GoOodW(x, "text of " \o v.t)}
       ELSE {PV(y, StrV(s)) : s \in Texts(x.hp, v, {})}

DoEcho(x) ==
    LET v == TopV(x)
        y == PopV(x, 1)
    IN IF MtOf(x, v) # 0 THEN {PushKs(x, <<[op |-> "emit"], [op |-> "tostr"]>>)}
       ELSE IF NoText(x.hp, v) THEN {Fail(x, TYPE)}
       ELSE IF ~Printable(x.hp, v, {}, TRUE, TRUE) THEN {GoOodW(x, "text of " \o v.t)}
       ELSE LET out == Recorded(x.pid)
                E == UNION {LitAt(out, q, "\n") : q \in Ends(x.hp, v, {}, out, x.pos)}
            IN IF E # {} THEN {[y EXCEPT !.pos = q] : q \in E}
               ELSE IF TextOk(x.hp, v) THEN {Emit(y, CHOOSE s \in Texts(x.hp, v, {}) : TRUE)}
               ELSE IF Truncated(x.pid) THEN {[y EXCEPT !.pos = Len(out)]} ELSE {Emit(y, "(a " \o v.t \o ")")}

------------------------------------------------------------------------------
(* indexing *)
DoGet(x, v, idx, y) ==    \* y: the state without the operands
    LET c == MtOf(x, v) IN
    IF v.t \in {"fn", "cfn"} THEN {Fail(x, VALUE)}
    ELSE IF idx.t = "float" /\ KeyBad(idx) THEN {GoOod(x)}
    ELSE IF c # 0 THEN
        LET r == TGet(x.hp[c], idx)
            g == TGet(x.hp[c], StrV("__get"))
            own == TGet(x.hp[v.i], idx)
        IN IF r # NONE THEN {PV(y, r)}
           ELSE IF g # NONE THEN CallV(y, g, <<v, idx>>, SINGLE)
           ELSE IF v.t = "table" /\ own # NONE THEN {PV(y, own)}
           ELSE {Fail(x, VALUE)}
    ELSE IF Method(v.t, idx) # NONE THEN {PV(y, Method(v.t, idx))}
    ELSE IF v.t \in {"str", "list", "table", "set"} THEN CallV(y, CfnV(v.t \o ".__get"), <<v, idx>>, SINGLE)
    ELSE {Fail(x, VALUE)}

DoSet(x) ==
    LET val == NthV(x, 0)
        key == NthV(x, 1)
        coll == NthV(x, 2)
        f == MtLookup(x, coll, "__set")
    IN IF f = NONE THEN {Fail(x, TYPE)} ELSE CallV(PopV(x, 3), f, <<coll, key, val>>, DROP)

DoSlice(x) ==
    LET e == NthV(x, 0)
        s == NthV(x, 1)
        v == NthV(x, 2)
        y == PopV(x, 3)
        n == IF v.t = "str" THEN Len(v.s) ELSE Len(x.hp[v.i].a)
        ei == NumI(e)
        si == NumI(s)
        e1 == IF e.t = "undef" THEN n ELSE IF ei < 0 THEN ei + n ELSE IF ei > n THEN n ELSE ei
        s1 == IF s.t = "undef" THEN 0 ELSE IF si < 0 THEN (IF si + n < 0 THEN 0 ELSE si + n) ELSE si
    IN IF v.t \notin {"str", "list"} THEN {Fail(x, TYPE)}
       ELSE IF v.t = "list" /\ x.hp[v.i].u THEN {GoOod(x)}
       ELSE IF e.t \notin {"int", "undef"} \/ s.t \notin {"int", "undef"} THEN {Fail(x, TYPE)}
       ELSE IF v.t = "str" THEN {PV(y, StrV(IF s1 >= e1 THEN "" ELSE Sub(v.s, s1 + 1, e1)))}
       ELSE {Alloc(y, ListO(IF s1 >= e1 THEN <<>> ELSE SubSeq(x.hp[v.i].a, s1 + 1, e1)), "list")}

------------------------------------------------------------------------------
(* iteration: the orders in which the items of v are visited; a list is visited as it is at that time *)
\* keys: the keys of a table that have not been visited yet, in any order
ItemKeys(x, v) == IF v.t = "table" THEN x.hp[v.i].k ELSE <<>>
Item(x, v, i) ==     \* NONE at the end
    CASE v.t = "list" -> IF i > Len(x.hp[v.i].a) THEN NONE ELSE x.hp[v.i].a[i]
      [] v.t = "str" -> IF i > Len(v.s) THEN NONE ELSE StrV(Ch(v.s, i))
      [] OTHER -> OOD
\* the choices for the next item: [v: the item or NONE, keys: what is left]
Nexts(x, v, keys, i) ==
    IF v.t = "table" THEN (IF keys = <<>> THEN {[v |-> NONE, keys |-> keys]} ELSE {[v |-> keys[j], keys |-> RemoveIdx(keys, j)] : j \in 1..Len(keys)})
    ELSE {[v |-> Item(x, v, i), keys |-> keys]}

------------------------------------------------------------------------------
(* patterns: NONE-like [ok, b] with the bindings as a sequence of <<name, value>> *)
NoMatch == [ok |-> FALSE, b |-> <<>>]
Match0 == [ok |-> TRUE, b |-> <<>>]
RECURSIVE Pat(_, _, _)
RECURSIVE PatSeq(_, _, _, _)
PatSeq(x, ps, vals, i) ==
    IF i > Len(ps) THEN Match0
    ELSE LET r == Pat(x, ps[i], vals[i])
         IN IF ~r.ok THEN NoMatch
            ELSE LET q == PatSeq(x, ps, vals, i + 1) IN IF q.ok THEN [ok |-> TRUE, b |-> r.b \o q.b] ELSE NoMatch
Pat(x, n, v) ==
    LET nd == Node(x.pid, n)
        el == x.hp[v.i].a
    IN
    CASE nd.o = "pany" -> Match0
      [] nd.o = "pundef" -> IF v.t = "undef" THEN Match0 ELSE NoMatch
      [] nd.o = "plit" -> IF ScalarEq(AtomV(x, nd.c[1]), v) THEN Match0 ELSE NoMatch
      [] nd.o = "ptype" -> IF v.t = nd.s THEN Match0 ELSE NoMatch
      [] nd.o \in {"plet", "pconst"} -> [ok |-> TRUE, b |-> <<<<nd.s, v>>>>]
      [] nd.o = "plist" -> IF v.t # "list" THEN NoMatch
                           ELSE IF (nd.i = 0 /\ Len(el) # Len(nd.c)) \/ Len(el) < Len(nd.c) THEN NoMatch
                           ELSE PatSeq(x, nd.c, el, 1)
      [] nd.o = "ptable" ->      \* q: the keys, c: the patterns
            IF v.t # "table" THEN NoMatch
            ELSE LET o == x.hp[v.i]
                     vals == [j \in 1..Len(nd.q) |-> TGet(o, AtomV(x, nd.q[j]))]
                 IN IF nd.i = 0 /\ Len(o.k) # Len(nd.q) THEN NoMatch
                    ELSE IF \E j \in 1..Len(vals) : vals[j] = NONE THEN NoMatch
                    ELSE PatSeq(x, nd.c, vals, 1)
      [] nd.o = "palt" -> LET r == Pat(x, nd.c[1], v) IN IF r.ok THEN r ELSE Pat(x, nd.c[2], v)

RECURSIVE BindPairs(_, _, _)
BindPairs(x, b, i) == IF i > Len(b) THEN x ELSE BindPairs(Bind(x, b[i][1], b[i][2]), b, i + 1)

(* try the arms of match node n from arm i on *)
RECURSIVE DoArms(_, _, _, _)
DoArms(x, n, v, i) ==
    LET nd == Node(x.pid, n) IN
    IF i > Len(nd.c) THEN x
    ELSE LET arm == Node(x.pid, nd.c[i])      \* c: pattern, body; q: guard
             r == Pat(x, arm.c[1], v)
             y == [BindPairs(PushK(x, [op |-> "env", e |-> x.env]), r.b, 1) EXCEPT !.ln = arm.l]
         IN IF ~r.ok THEN DoArms(x, n, v, i + 1)
            ELSE IF arm.q = <<>> THEN PushK(y, EvF(arm.c[2], SINGLE))
            ELSE PushKs(y, <<[op |-> "guard", n |-> n, v |-> v, i |-> i], EvF(arm.q[1], SINGLE)>>)

------------------------------------------------------------------------------
(* evaluation of a node: the innermost frame, fr, has been taken off x.k already *)
DeclW(x, nd) == LastW(x, nd.c)

Statements == {"echo", "let", "fnlet", "assign", "setst", "augset", "masgn", "expr", "if", "while", "forc", "forin", "match",
               "return", "assert", "export"}
DoEv(x0, fr) ==
    LET n == fr.n
        nd == Node(x0.pid, n)
        o == nd.o
        x == IF o \in Statements THEN [x0 EXCEPT !.ln = nd.l] ELSE x0
    IN
    CASE o \in AtomOps -> {PV(x, AtomV(x, n))}
      \* expressions
      [] o = "bin" -> {Evs(x, nd.c, SINGLE, <<[op |-> "binop", s |-> nd.s]>>)}
      [] o = "un" -> {Evs(x, nd.c, SINGLE, <<[op |-> "unop", s |-> nd.s]>>)}
      [] o \in {"and", "or", "nn"} -> {Evs(x, <<nd.c[1]>>, SINGLE, <<[op |-> "logic", s |-> o, n |-> nd.c[2]]>>)}
      [] o = "tern" -> {Evs(x, <<nd.c[1]>>, SINGLE, <<[op |-> "tern", a |-> nd.c[2], b |-> nd.c[3]]>>)}
      [] o = "call" -> {Evs(x, <<nd.c[1]>>, SINGLE, <<[op |-> "chk", n |-> n, w |-> fr.w]>>)}
      [] o = "mcall" -> {Evs(x, <<nd.c[1]>>, SINGLE, <<[op |-> "mchk", n |-> n, w |-> fr.w]>>)}
      [] o = "get" -> {Evs(x, nd.c, SINGLE, <<[op |-> "get"]>>)}
      [] o = "slice" -> {Evs(x, nd.c, SINGLE, <<[op |-> "slice"]>>)}
      [] o = "list" -> {Evs(x, nd.c, SINGLE, <<[op |-> "mklist", b |-> Len(x.vs)]>>)}
      [] o = "table" -> {Evs(x, nd.c, SINGLE, <<[op |-> "mktable", b |-> Len(x.vs)]>>)}
      [] o \in {"lcomp", "tcomp"} -> {Evs(x, <<nd.q[1]>>, SINGLE, <<[op |-> "comp0", n |-> n]>>)}
      [] o = "fn" -> {Alloc(x, FnO(n, x.env), "fn")}
      \* statements
      [] o \in {"block", "file"} -> {PushKs(x, <<[op |-> "env", e |-> x.env]>> \o
                                   [i \in 1..Len(nd.c) |-> EvF(nd.c[Len(nd.c) + 1 - i], SINGLE)])}
      [] o = "session" -> {PushK(x, [op |-> "inputs", n |-> n, i |-> 1])}
      [] o = "echo" -> {Evs(x, nd.c, SINGLE, <<[op |-> "echo"]>>)}
      [] o = "let" -> {Evs(x, nd.c, DeclW(x, nd), <<[op |-> "decl", n |-> n, b |-> Len(x.vs)]>>)}
      [] o = "fnlet" -> LET y == Bind(x, nd.s, UNDEF)
                        IN {[y EXCEPT !.hp = Append(@, FnO(nd.c[1], y.env)),
                                      !.st[Len(y.st)] = Ref("fn", Len(y.hp) + 1)]}
      [] o = "assign" -> {Evs(x, nd.c, SINGLE, <<[op |-> "assign", s |-> nd.s]>>)}
      [] o = "setst" -> {Evs(x, nd.c, SINGLE, <<[op |-> "set"]>>)}
      [] o = "augset" ->      \* coll[key] op= val: collection and key are evaluated again for the value
            {Evs(x, <<nd.c[1], nd.c[2], nd.c[1], nd.c[2]>>, SINGLE,
                 <<[op |-> "set"], [op |-> "binop", s |-> nd.s], EvF(nd.c[3], SINGLE), [op |-> "get"]>>)}
      [] o = "masgn" -> {Evs(x, nd.c, DeclW(x, nd), <<[op |-> "masgn", n |-> n, b |-> Len(x.vs)]>>)}
      [] o = "expr" -> {Evs(x, nd.c, SINGLE, IF fr.w = SHOW THEN <<[op |-> "echo"]>> ELSE <<[op |-> "drop", b |-> Len(x.vs)]>>)}
      [] o = "if" -> {Evs(x, <<nd.c[1]>>, SINGLE, <<[op |-> "if", n |-> n]>>)}
      [] o = "while" -> {Evs(x, <<nd.c[1]>>, SINGLE, <<[op |-> "while1", n |-> n]>>)}
      [] o = "forc" -> {PushKs(x, <<[op |-> "env", e |-> x.env], [op |-> "forc0", n |-> n], EvF(nd.c[1], SINGLE)>>)}
      [] o = "forin" -> {Evs(x, <<nd.c[1]>>, SINGLE, <<[op |-> "forin0", n |-> n]>>)}
      [] o = "match" -> {Evs(x, <<nd.q[1]>>, SINGLE, <<[op |-> "match", n |-> n]>>)}
      [] o = "export" -> {Evs(x, nd.c, SINGLE, <<[op |-> "export"]>>)}
      [] o = "return" -> {Evs(x, nd.c, LastW(x, nd.c), <<[op |-> "return", b |-> Len(x.vs)]>>)}
      [] o = "assert" -> {Evs(x, nd.c, SINGLE, <<[op |-> "assert"]>>)}
      [] o = "nop" -> {x}
      [] o \in {"break", "continue"} ->
            LET j == CHOOSE j \in 1..Len(x.k) : /\ x.k[j].op \in {"loop"}
                                                /\ \A l \in (j + 1)..Len(x.k) : x.k[l].op # "loop"
                l == x.k[j]
            IN {[x EXCEPT !.k = SubSeq(@, 1, IF o = "break" THEN j - 1 ELSE j), !.env = IF o = "break" THEN l.e0 ELSE l.e]}

(* the loop frame is below the body of a loop; executing it goes on with the next iteration.          *)
(* e0: the variables outside of the loop, e: the ones in front of each iteration                       *)
LoopF(n, kind, e0, e, v, keys, i, loc) ==
    [op |-> "loop", n |-> n, kind |-> kind, e0 |-> e0, e |-> e, v |-> v, keys |-> keys, i |-> i, loc |-> loc]

DoLoop(x0, l) ==
    LET nd == Node(x0.pid, l.n)
        x == [x0 EXCEPT !.ln = nd.l]
    IN
    CASE l.kind = "while" -> {Evs(x, <<nd.c[1]>>, SINGLE, <<[op |-> "while1", n |-> l.n]>>)}
      [] l.kind = "forc" -> {PushKs(x, <<[op |-> "forc0", n |-> l.n], EvF(nd.c[3], SINGLE)>>)}
      [] l.kind = "forin" ->
            LET One(it, keys) ==
                IF IsOod(it) THEN Fail(x, TYPE)
                ELSE IF it = NONE THEN [x EXCEPT !.env = l.e0]
                ELSE IF l.v.t = "list" /\ x.hp[l.v.i].u THEN GoOodW(x, "order of a list")
                ELSE PushKs([x EXCEPT !.st[l.loc] = it, !.env = l.e], <<[l EXCEPT !.i = @ + 1, !.keys = keys], EvF(nd.c[2], SINGLE)>>)
            IN {One(n.v, n.keys) : n \in Nexts(x, l.v, l.keys, l.i)}

CompF(n, e0, e, v, keys, i, loc, b) ==
    [op |-> "comp", n |-> n, e0 |-> e0, e |-> e, v |-> v, keys |-> keys, i |-> i, loc |-> loc, b |-> b]

MkTableAt(x, b) ==
    { IF r.e # 0 THEN Fail(x, r.e) ELSE Results([DropTo(x, b) EXCEPT !.hp = r.hp], r.v, SINGLE)
      : r \in MkTable(x.hp, SubSeq(x.vs, b + 1, Len(x.vs))) }

DoComp1(x, l, it, keys) ==
    LET nd == Node(x.pid, l.n)
        y == [x EXCEPT !.st[l.loc] = it, !.env = l.e, !.k = Append(@, [l EXCEPT !.i = @ + 1, !.keys = keys])]
        Body == [i \in 1..Len(nd.c) |-> EvF(nd.c[Len(nd.c) + 1 - i], SINGLE)]
    IN IF IsOod(it) THEN {Fail(x, TYPE)}
       ELSE IF l.v.t = "list" /\ x.hp[l.v.i].u THEN {GoOodW(x, "order of a list")}
       ELSE IF it = NONE THEN
            (IF nd.o = "lcomp" THEN {Alloc([DropTo(x, l.b) EXCEPT !.env = l.e0], ListO(SubSeq(x.vs, l.b + 1, Len(x.vs))), "list")}
             ELSE MkTableAt([x EXCEPT !.env = l.e0], l.b))
       ELSE IF Len(nd.q) = 2 THEN {PushKs(y, <<[op |-> "compif", n |-> l.n], EvF(nd.q[2], SINGLE)>>)}
       ELSE {PushKs(y, Body)}
DoComp(x, l) == UNION {DoComp1(x, l, n.v, n.keys) : n \in Nexts(x, l.v, l.keys, l.i)}

(* return: leave everything up to the frame of the active call *)
DoReturn(x, vals) ==
    LET j == CHOOSE j \in 1..Len(x.k) : x.k[j].op = "ret" /\ \A l \in (j + 1)..Len(x.k) : x.k[l].op # "ret"
        r == x.k[j]
        y == [x EXCEPT !.k = SubSeq(@, 1, j - 1), !.env = r.e, !.vs = SubSeq(@, 1, r.b), !.d = @ - 1, !.ln = r.ln]
    IN {Results(y, vals, r.w)}

(* assign the values vals to the targets ts of a multiple assignment, from target i on *)
DoMasgn(x, fr) ==
    LET nd == Node(x.pid, fr.n)
        ts == nd.q
        vals == SubSeq(x.vs, fr.b + 1, Len(x.vs))
    IN {PushK(DropTo(x, fr.b), [op |-> "masgn1", ts |-> ts, vals |-> Pad(vals, Len(ts)), i |-> 1])}
DoMasgn1(x, fr) ==
    IF fr.i > Len(fr.ts) THEN {x}
    ELSE LET t == Node(x.pid, fr.ts[fr.i])
             y == PushK(x, [fr EXCEPT !.i = @ + 1])
         IN IF t.o = "tovar" THEN {[y EXCEPT !.st[x.env[t.s]] = fr.vals[fr.i]]}
            ELSE IF t.o = "letv" THEN {Bind(y, t.s, fr.vals[fr.i])}
            ELSE {Evs(y, t.c, SINGLE, <<[op |-> "setv", v |-> fr.vals[fr.i]]>>)}

------------------------------------------------------------------------------
(* Functions of the host.  Each is a list of calls of the API on its own   *)
(* part of the stack, which are the values above fr.b; they print what     *)
(* they return.                                                            *)
TypeName(v) == IF v.t = "cfn" THEN "fn" ELSE v.t
Bit(b) == IF b THEN "1" ELSE "0"
IsText(v) == TypeName(v) \o " " \o Bit(v.t = "undef") \o Bit(v.t = "bool") \o Bit(v.t = "int") \o Bit(v.t = "float") \o Bit(v.t = "str")
             \o Bit(v.t = "list") \o Bit(v.t = "table") \o Bit(v.t = "obj") \o "0" \o Bit(v.t = "userptr")
CInt(v) == IF v.t = "int" THEN Decimal(v) ELSE "0"
CBool(v) == IF v = TRUEV THEN "1" ELSE "0"
CFlt(v) == IF v.t # "float" THEN "0/64" ELSE IF v.s # "" THEN v.s ELSE ToString(v.i) \o "/64"
CPtr(v) == IF v.t = "userptr" THEN ToString(v.i) ELSE "0"
CStr(v) == IF v.t = "str" THEN v.s ELSE "NULL"
KeyText(v) == IF v.t = "float" THEN CFlt(v) ELSE IF v.t \in {"bool", "int", "str"} THEN ScalarStr(v) ELSE "(" \o TypeName(v) \o ")"
ItemText(v) == IF v.t = "str" THEN v.s ELSE IF v.t = "int" THEN Decimal(v) ELSE "(" \o TypeName(v) \o ")"
Globals == [g0 |-> 1, g1 |-> 2]       \* their locations

DoHost(x, fr) ==
    LET cs == Host(x.pid)[fr.s].c
        c == cs[fr.i]
        n == c.i
        y == PushK(x, [fr EXCEPT !.i = @ + 1])
        d == Len(x.vs) - fr.b
        v == TopV(x)
        Slot(i) == x.vs[fr.b + 1 + i]
        Say(z, t) == LET q == Deaths(z) IN IF q.ph = "run" THEN {Emit(q, t)} ELSE {q}
        Skip == Say(y, "skip")
        Push(u) == {PV(y, u)}
        Below(e) == x.vs[Len(x.vs) - e]
        Need(k, S) == IF d < k THEN Skip ELSE S
        Check(t, text) == IF d < n + 1 THEN Skip ELSE IF Slot(n).t # t THEN {Fail(x, TYPE)} ELSE Say(y, text)
        RcText(name, rc) == name \o " " \o ToString(rc)
        Leave(k) == Results([DropTo(x, fr.b) EXCEPT !.ln = fr.ln, !.d = @ - 1], SubSeq(x.vs, Len(x.vs) - k + 1, Len(x.vs)), fr.w)
    IN
    IF fr.i > Len(cs) THEN {Leave(0)} ELSE
    CASE c.o = "undef" -> Push(UNDEF)
      [] c.o = "int" -> Push(Val("int", n, c.s))
      [] c.o = "float" -> Push(Val("float", n, c.s))
      [] c.o = "bool" -> Push(BoolV(n = 1))
      [] c.o \in {"lit", "zstr"} -> Push(StrV(c.s))
      [] c.o = "lstr" -> Push(StrV(Sub(c.s, 1, n)))
      [] c.o = "list" -> {Alloc(y, ListO(<<>>), "list")}
      [] c.o = "table" -> {Alloc(y, TableO(<<>>, <<>>), "table")}
      [] c.o = "cfn" -> Push(CfnV("h" \o ToString(n)))
      [] c.o = "ptr" -> Push(Val("userptr", n, ""))
      [] c.o = "obj" -> {Alloc(y, ObjO(Cardinality({i \in 1..Len(x.hp) : x.hp[i].t = "obj"}) + 1), "obj")}
      [] c.o = "id" -> Need(1, IF v.t \in {"list", "table"} THEN Skip ELSE IF v.t # "obj" THEN Say(y, "id 0 1")
                               ELSE Say(y, "id " \o (IF x.hp[v.i].gone THEN "of a destroyed object" ELSE ToString(x.hp[v.i].n)) \o " 1"))
      [] c.o = "pop" -> Need(1, {PopV(y, 1)})
      [] c.o = "dup" -> Need(1, Say(PV(y, v), "dup 0"))
      [] c.o = "is" -> Need(1, Say(y, IsText(v)))
      [] c.o = "isn" -> Need(n + 1, Say(y, IsText(Slot(n))))
      [] c.o = "peek" -> Need(1, Say(y, "peek " \o CInt(v) \o " " \o CBool(v) \o " " \o CFlt(v) \o " " \o CPtr(v) \o " " \o CStr(v)))
      [] c.o = "peekn" -> Need(n + 1, Say(y, "peekn " \o CInt(Slot(n)) \o " " \o CBool(Slot(n)) \o " " \o CFlt(Slot(n))))
      \* values of another type stay where they are
      [] c.o = "popint" -> Need(1, Say(PopV(y, IF v.t = "int" THEN 1 ELSE 0), "popint " \o CInt(v)))
      [] c.o = "popbool" -> Need(1, Say(PopV(y, IF v.t = "bool" THEN 1 ELSE 0), "popbool " \o CBool(v)))
      [] c.o = "popfloat" -> Need(1, Say(PopV(y, IF v.t = "float" THEN 1 ELSE 0), "popfloat " \o CFlt(v)))
      [] c.o = "popptr" -> Need(1, Say(PopV(y, IF v.t = "userptr" THEN 1 ELSE 0), "popptr " \o CPtr(v)))
      [] c.o = "popcstr" -> Need(1, Say(PopV(y, 1), "popcstr " \o CStr(v)))
      [] c.o = "len" -> Need(1, DoUn(y, "len"))
      [] c.o = "listget" -> Need(1, IF v.t # "list" THEN Say(y, RcText("listget", TYPE))
                                    ELSE LET el == x.hp[v.i].a IN
                                         IF x.hp[v.i].u THEN {GoOod(x)}
                                         ELSE IF ~InIdx(n, Len(el)) THEN {Fail(x, VALUE)}
                                         ELSE Say(PV(y, el[NormIdx(n, Len(el)) + 1]), "listget 0"))
      [] c.o = "listpush" -> Need(2, IF Below(1).t # "list" THEN Say(PopV(y, 1), RcText("listpush", TYPE))
                                     ELSE Say([PopV(y, 1) EXCEPT !.hp[Below(1).i].a = Append(@, v)], "listpush 0"))
      [] c.o = "tableset" -> Need(3, IF v.t = "undef" THEN Skip
                                     ELSE IF Below(2).t # "table" \/ ~Hashable(Below(1)) THEN Say(PopV(y, 2), RcText("tableset", TYPE))
                                     ELSE IF KeyBad(Below(1)) THEN {GoOod(x)}
                                     ELSE Say([PopV(y, 2) EXCEPT !.hp[Below(2).i] = TPut(@, Below(1), v)], "tableset 0"))
      [] c.o = "entries" ->
            Need(1, IF v.t # "table" THEN Skip ELSE
                    LET o == x.hp[v.i]
                        out == Recorded(x.pid)
                        z == Deaths(y)
                        items == [j \in 1..Len(o.k) |-> <<KeyText(o.k[j]) \o ": ", StrV(ItemText(o.a[j]))>>]
                        E == UNION {LitAt(out, q, "}\n") : q \in UNION {EndsAny(x.hp, items, 1..Len(o.k), TRUE, {}, out, q) : q \in LitAt(out, z.pos, "{")}}
                    IN IF z.ph # "run" THEN {z}
                       ELSE IF E = {} /\ Truncated(x.pid) THEN {[z EXCEPT !.pos = Len(out)]}
                       ELSE IF E = {} THEN {[z EXCEPT !.ph = "mismatch", !.k = <<>>, !.vs = <<StrV("the entries of a table")>>]}
                       ELSE {[z EXCEPT !.pos = q] : q \in E})
      [] c.o = "load" -> IF c.s \in DOMAIN Globals THEN Say(PV(y, x.st[Globals[c.s]]), "load 0")
                         ELSE IF c.s \in DOMAIN Host(x.pid) THEN Say(PV(y, CfnV(c.s)), "load 0") ELSE Say(y, "load 2")
      [] c.o = "set" -> Need(1, IF c.s \in DOMAIN Globals THEN Say([PopV(y, 1) EXCEPT !.st[Globals[c.s]] = v], "set 0") ELSE Say(y, "set 2"))
      [] c.o = "regmt" -> Need(1, IF v.t # "table" THEN Skip ELSE Say([PopV(y, 1) EXCEPT !.reg = (c.s :> v) @@ @], "regmt 0"))
      [] c.o = "loadmt" -> IF c.s \in DOMAIN x.reg THEN Say(PV(y, x.reg[c.s]), "loadmt 0") ELSE Say(y, "loadmt 2")
      [] c.o = "setmt" -> Need(2, IF v.t # "table" \/ Below(1).t \notin {"list", "table", "obj"} THEN Skip
                                  ELSE Say([PopV(y, 1) EXCEPT !.hp[Below(1).i].mt = v.i], "setmt 0"))
      [] c.o = "call" -> Need(n + 1, LET f == Below(n)
                                         z == PushK(DropTo(y, Len(x.vs) - n - 1), [op |-> "hcall", b |-> Len(x.vs) - n - 1])
                                     IN IF ~Callable(f) THEN {Fail(x, TYPE)} ELSE CallV(z, f, SubSeq(x.vs, Len(x.vs) - n + 1, Len(x.vs)), MULTI))
      [] c.o = "vargs" -> LET a == Host(x.pid)[fr.s].n IN IF a >= 0 \/ d < -a THEN Skip ELSE IF Slot(-a - 1).t # "int" THEN Skip ELSE Say(y, "vargs " \o CInt(Slot(-a - 1)))
      [] c.o = "chkint" -> Check("int", "chkint " \o CInt(Slot(n)))
      [] c.o = "chkfloat" -> Check("float", "chkfloat " \o CFlt(Slot(n)))
      [] c.o = "chkbool" -> Check("bool", "chkbool " \o CBool(Slot(n)))
      [] c.o = "chkundef" -> Check("undef", "chkundef")
      [] c.o = "chkobj" -> Check("obj", "chkobj " \o ToString(x.hp[Slot(n).i].n))
      [] c.o = "throw" -> {Fail(x, n)}
      [] c.o = "say" -> Say(y, c.s)
      [] c.o = "ret" -> IF d < n THEN Skip ELSE {Leave(n)}

(* Sessions: inputs to one state, one after the other.  Their kinds: "r": as typed in by a user: its variables are global, and a trailing
   expression is printed; "x": run as a program: it sees the globals, its own variables are gone afterwards; "h": by the host, without a status;
   "bad": text that is not a program.  After each input, its status is printed. *)
DoInput(x0, fr) ==
    LET nd == Node(x0.pid, fr.n)
        inp == Node(x0.pid, nd.c[fr.i])
        x == [PushK(x0, [fr EXCEPT !.i = @ + 1]) EXCEPT !.env = x0.top]
        n == Len(inp.c)
        Shown(c) == inp.s = "r" /\ Node(x.pid, c).o = "expr"
        Fr(j) == LET c == inp.c[n + 1 - (j + 1) \div 2] IN
                 IF j % 2 = 1 THEN (IF inp.s = "x" THEN [op |-> "nop"] ELSE [op |-> "save"])
                 ELSE IF j = 2 /\ Shown(c) THEN EvF(c, SHOW) ELSE EvF(c, SINGLE)
    IN IF fr.i > Len(nd.c) THEN {[x0 EXCEPT !.env = x0.top]}
       ELSE IF ~x.oks[fr.i] THEN {PushK(x, [op |-> "fin", c |-> SYNTAX])}
       ELSE {PushKs(x, <<[op |-> "fin", c |-> 0]>> \o [j \in 1..2 * n |-> Fr(j)])}
(* variables whose initialisation was not reached are there, without a value *)
Lost(x, inp) == IF inp.s # "r" THEN <<>>
                ELSE SelectSeq(FlattenSeq([j \in 1..Len(inp.c) |-> Declared(x.pid, inp.c[j])]), LAMBDA name : name \notin DOMAIN x.top)
DoFin(x, fr) ==
    LET ss == x.k[1]
        inp == Node(x.pid, Node(x.pid, ss.n).c[ss.i - 1])
        lost == IF fr.c \in {0, SYNTAX} THEN <<>> ELSE Lost(x, inp)
        y == BindAll([x EXCEPT !.env = x.top], lost, [i \in 1..Len(lost) |-> UNDEF], 1)
        z == [y EXCEPT !.top = y.env]
    IN IF inp.s = "h" \/ Node(x.pid, ss.n).i = 1 THEN {z} ELSE {Emit(z, "status " \o ToString(fr.c))}

(* the frames that wait for values *)
DoFrame(x, fr) ==
    CASE fr.op = "binop" -> DoBin(x, fr.s)
      [] fr.op = "unop" -> DoUn(x, fr.s)
      [] fr.op = "eq" -> DoEq(x)
      [] fr.op = "eqs" -> IF TopV(x) = TRUEV THEN DoEqs(PopV(x, 1), fr.p, fr.i) ELSE {PV(PopV(x, 1), FALSEV)}
      [] fr.op = "cat2" ->        \* the right operand is a str by now: convert the left one
            LET r == TopV(x) IN {PushKs(PopV(x, 1), <<[op |-> "cat", v |-> r], [op |-> "tostr"]>>)}
      [] fr.op = "cat" -> {PV(PopV(x, 1), StrV(TopV(x).s \o fr.v.s))}
      [] fr.op = "tostr" -> DoToStr(x)
      [] fr.op = "ckstr" -> IF TopV(x).t = "str" THEN {x} ELSE {Fail(x, TYPE)}
      [] fr.op = "echo" -> DoEcho(x)
      [] fr.op = "emit" -> {Emit(PopV(x, 1), TopV(x).s)}
      [] fr.op = "logic" ->
            LET v == TopV(x)
                keep == CASE fr.s = "and" -> Falsey(v) [] fr.s = "or" -> ~Falsey(v) [] fr.s = "nn" -> v.t # "undef"
            IN IF keep THEN {x} ELSE {PushK(PopV(x, 1), EvF(fr.n, SINGLE))}
      [] fr.op = "tern" -> {PushK(PopV(x, 1), EvF(IF Falsey(TopV(x)) THEN fr.b ELSE fr.a, SINGLE))}
      \* calls
      [] fr.op = "chk" ->
            LET nd == Node(x.pid, fr.n)
                args == SubSeq(nd.c, 2, Len(nd.c))
            IN IF ~Callable(TopV(x)) THEN {Fail(x, TYPE)}
               ELSE {Evs(x, args, LastW(x, args), <<[op |-> "app", b |-> Len(x.vs), w |-> fr.w, ln |-> x.ln]>>)}
      [] fr.op = "mchk" ->
            LET nd == Node(x.pid, fr.n)
                v == TopV(x)
            IN DoGet(x, v, StrV(nd.s), PushK(x, [op |-> "mchk2", n |-> fr.n, w |-> fr.w]))
      [] fr.op = "mchk2" ->
            LET nd == Node(x.pid, fr.n)
                args == SubSeq(nd.c, 2, Len(nd.c))
                y == [PopV(x, 2) EXCEPT !.vs = @ \o <<TopV(x), NthV(x, 1)>>]
            IN IF ~Callable(TopV(x)) THEN {Fail(x, TYPE)}
               ELSE {Evs(y, args, LastW(x, args), <<[op |-> "app", b |-> Len(x.vs) - 1, w |-> fr.w, ln |-> x.ln]>>)}
      [] fr.op = "app" -> CallV(DropTo(x, fr.b - 1), x.vs[fr.b], SubSeq(x.vs, fr.b + 1, Len(x.vs)), fr.w)
      [] fr.op = "ret" -> DoReturn([x EXCEPT !.k = Append(@, fr)], <<UNDEF>>)
      [] fr.op = "return" -> DoReturn(x, SubSeq(x.vs, fr.b + 1, Len(x.vs)))
      [] fr.op = "host" -> DoHost(x, fr)
      [] fr.op = "hcall" -> LET q == Deaths(x) IN IF q.ph = "run" THEN {Emit(q, "call " \o ToString(Len(x.vs) - fr.b))} ELSE {q}
      \* collections
      [] fr.op = "get" -> DoGet(x, NthV(x, 1), TopV(x), PopV(x, 2))
      [] fr.op = "set" -> DoSet(x)
      [] fr.op = "setv" -> DoSet(PV(x, fr.v))
      [] fr.op = "slice" -> DoSlice(x)
      [] fr.op = "mklist" -> {Alloc(DropTo(x, fr.b), ListO(SubSeq(x.vs, fr.b + 1, Len(x.vs))), "list")}
      [] fr.op = "mktable" -> MkTableAt(x, fr.b)
      [] fr.op = "comp0" ->
            LET v == TopV(x)
                nd == Node(x.pid, fr.n)
                y == Bind(PopV(x, 1), nd.p[1], UNDEF)
            IN {PushK(y, CompF(fr.n, x.env, y.env, v, ItemKeys(x, v), 1, Len(y.st), Len(y.vs)))}
      [] fr.op = "comp" -> DoComp(x, fr)
      [] fr.op = "compif" ->
            LET nd == Node(x.pid, fr.n)
                y == PopV(x, 1)
            IN IF Falsey(TopV(x)) THEN {y}
               ELSE {PushKs(y, [i \in 1..Len(nd.c) |-> EvF(nd.c[Len(nd.c) + 1 - i], SINGLE)])}
      \* modules
      [] fr.op = "module" -> {NotAModule([x EXCEPT !.k = Append(@, fr)])}       \* its end, without an export
      [] fr.op = "modfail" -> LET z == Emit(x, "Not a valid module") IN {IF z.ph = "run" THEN Fail(z, ERROR) ELSE z}
      [] fr.op = "export" -> IF InModule(x) THEN {LET r == x.k[ModuleAt(x.k)] IN Results(OutOfModule(x), <<TopV(x)>>, r.w)} ELSE {Fail(x, EXPORTED)}
      \* sessions
      [] fr.op = "inputs" -> DoInput(x, fr)
      [] fr.op = "save" -> {[x EXCEPT !.top = x.env]}
      [] fr.op = "fin" -> DoFin(x, fr)
      \* statements
      [] fr.op = "nop" -> {x}
      [] fr.op = "env" -> {[x EXCEPT !.env = fr.e]}
      [] fr.op = "drop" -> {DropTo(x, fr.b)}
      [] fr.op = "decl" ->
            LET nd == Node(x.pid, fr.n)
                vals == Pad(SubSeq(x.vs, fr.b + 1, Len(x.vs)), Len(nd.p))
            IN {BindAll(DropTo(x, fr.b), nd.p, vals, 1)}
      [] fr.op = "assign" -> {[PopV(x, 1) EXCEPT !.st[x.env[fr.s]] = TopV(x)]}
      [] fr.op = "masgn" -> DoMasgn(x, fr)
      [] fr.op = "masgn1" -> DoMasgn1(x, fr)
      [] fr.op = "if" ->
            LET nd == Node(x.pid, fr.n)
                y == PopV(x, 1)
            IN IF ~Falsey(TopV(x)) THEN {PushK(y, EvF(nd.c[2], SINGLE))}
               ELSE IF Len(nd.c) = 3 THEN {PushK(y, EvF(nd.c[3], SINGLE))} ELSE {y}
      [] fr.op = "while1" ->
            LET nd == Node(x.pid, fr.n)
                y == PopV(x, 1)
            IN IF Falsey(TopV(x)) THEN {y}
               ELSE {PushKs(y, <<LoopF(fr.n, "while", x.env, x.env, UNDEF, <<>>, 0, 0), EvF(nd.c[2], SINGLE)>>)}
      [] fr.op = "forc0" -> LET nd == Node(x.pid, fr.n) IN {Evs(x, <<nd.c[2]>>, SINGLE, <<[op |-> "forc1", n |-> fr.n]>>)}
      [] fr.op = "forc1" ->
            LET nd == Node(x.pid, fr.n)
                y == PopV(x, 1)
            IN IF Falsey(TopV(x)) THEN {y}
               ELSE {PushKs(y, <<LoopF(fr.n, "forc", x.env, x.env, UNDEF, <<>>, 0, 0), EvF(nd.c[4], SINGLE)>>)}
      [] fr.op = "forin0" ->
            LET v == TopV(x)
                nd == Node(x.pid, fr.n)
                y == Bind(PopV(x, 1), nd.p[1], UNDEF)
            IN {PushK(y, LoopF(fr.n, "forin", x.env, y.env, v, ItemKeys(x, v), 1, Len(y.st)))}
      [] fr.op = "loop" -> DoLoop(x, fr)
      [] fr.op = "match" -> {DoArms(PopV(x, 1), fr.n, TopV(x), 1)}
      [] fr.op = "guard" ->
            LET y == PopV(x, 1) IN
            IF ~Falsey(TopV(x)) THEN {PushK(y, EvF(Node(x.pid, Node(x.pid, fr.n).c[fr.i]).c[2], SINGLE))}
            ELSE {DoArms([y EXCEPT !.env = Last(y.k).e, !.k = Front(@)], fr.n, fr.v, fr.i + 1)}
      [] fr.op = "assert" ->
            LET v == TopV(x) IN IF Falsey(v) THEN {Fail(x, ASSERT)} ELSE {PopV(x, 1)}

Step(x) ==
    IF x.k = <<>> THEN {[x EXCEPT !.ph = "end"]}
    ELSE LET fr == Last(x.k)
             y == [x EXCEPT !.k = Front(@)]
         IN IF fr.op = "ev" THEN DoEv(y, fr)
            ELSE IF fr.op \in {"echo", "emit"} THEN (LET z == Deaths(y) IN IF z.ph = "run" THEN DoFrame(z, fr) ELSE {z})
            ELSE DoFrame(y, fr)

------------------------------------------------------------------------------
(* The actions: evaluation of a node, and completion of a frame *)
Running == m.ph = "run"
AtEv == m.k # <<>> /\ Last(m.k).op = "ev"
Evaluate == Running /\ AtEv /\ m' \in Step(m)
Complete == Running /\ ~AtEv /\ m' \in Step(m)

(* Invariants of the machine *)
RefOk(x, v) == IsRef(v) => v.i \in 1..Len(x.hp) /\ x.hp[v.i].t = v.t
RefsValid == /\ \A i \in 1..Len(m.vs) : RefOk(m, m.vs[i])
             /\ \A i \in 1..Len(m.st) : RefOk(m, m.st[i])
EnvValid == \A name \in DOMAIN m.env : m.env[name] \in 1..Len(m.st)
MapsValid == \A i \in 1..Len(m.hp) : LET o == m.hp[i] IN
                 /\ o.t = "table" => Len(o.k) = Len(o.a) /\ \A j \in 1..Len(o.a) : o.a[j].t # "undef"
                 /\ o.t \in {"table", "set"} => \A a, b \in 1..Len(o.k) : a # b => o.k[a] # o.k[b]
DepthValid == m.ph = "run" => m.d = DepthOf(m.k)
=============================================================================
