------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* Which programs are accepted: the scopes of names, constants, and the    *)
(* places of break, continue, return and export.  A program that is not    *)
(* accepted does not run at all.                                           *)
(*                                                                         *)
(* sc: the scopes, innermost last, as functions from names to whether they *)
(* are constants; cx: what the code is inside of.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT Node(_, _)

OkS(sc) == [ok |-> TRUE, sc |-> sc]
BadS == [ok |-> FALSE, sc |-> <<>>]
EmptyScope == [x \in {} |-> FALSE]
Declares(sc, name) == \E i \in 1..Len(sc) : name \in DOMAIN sc[i]
IsConst(sc, name) ==
    LET D == {i \in 1..Len(sc) : name \in DOMAIN sc[i]}
        i == CHOOSE i \in D : \A j \in D : j <= i
    IN sc[i][name]
Declare(sc, name, const) ==
    IF name \in DOMAIN sc[Len(sc)] THEN BadS
    ELSE OkS([sc EXCEPT ![Len(sc)] = (name :> const) @@ @])
RECURSIVE DeclareAll(_, _, _, _)     \* names, and the set of the indices of the constants among them
DeclareAll(sc, names, consts, i) ==
    IF i > Len(names) THEN OkS(sc)
    ELSE LET r == Declare(sc, names[i], i \in consts) IN IF r.ok THEN DeclareAll(r.sc, names, consts, i + 1) ELSE BadS
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Nested(sc) == Append(sc, EmptyScope)

MaxResults == 254        \* that a call can be asked for

MaxVars == 255           \* of a function, or of a file, at a time
MaxCaptured == 255       \* variables of the enclosing functions and of the file that a function uses
(* base: how many of the scopes are not of this function *)
Top == [fn |-> FALSE, loop |-> FALSE, top |-> TRUE, base |-> 0]
Fits(sc, cx) == FoldLeft(LAMBDA k, i : IF i <= cx.base THEN k ELSE k + Cardinality(DOMAIN sc[i]), 0, [i \in 1..Len(sc) |-> i]) <= MaxVars
RECURSIVE Mentions(_, _)
Mentions(pid, n) ==
    LET nd == Node(pid, n) IN
    {nd.s} \union RangeOf(nd.p) \union UNION {Mentions(pid, nd.c[i]) : i \in 1..Len(nd.c)}
    \union (IF nd.o \in {"fn", "let"} THEN {} ELSE UNION {Mentions(pid, nd.q[i]) : i \in 1..Len(nd.q)})
(* no name is used for more than one of them in programs that have so many *)
FewCaptured(pid, n, sc) ==
    LET D == UNION {DOMAIN sc[i] : i \in 1..Len(sc)} IN Cardinality(D) <= MaxCaptured \/ Cardinality(D \intersect Mentions(pid, n)) <= MaxCaptured

(* the names a pattern binds, in order, as pairs <<name, const>>; alternatives bind the ones of the first *)
RECURSIVE Bound(_, _)
RECURSIVE BoundSeq(_, _, _)
BoundSeq(pid, ps, i) == IF i > Len(ps) THEN <<>> ELSE Bound(pid, ps[i]) \o BoundSeq(pid, ps, i + 1)
Bound(pid, n) ==
    LET nd == Node(pid, n) IN
    CASE nd.o = "plet" -> << <<nd.s, FALSE>> >>
      [] nd.o = "pconst" -> << <<nd.s, TRUE>> >>
      [] nd.o \in {"plist", "ptable"} -> BoundSeq(pid, nd.c, 1)
      [] nd.o = "palt" -> Bound(pid, nd.c[1])
      [] OTHER -> <<>>
RECURSIVE PatOk(_, _)
PatOk(pid, n) ==
    LET nd == Node(pid, n) IN
    CASE nd.o \in {"plist", "ptable"} -> /\ \A i \in 1..Len(nd.c) : PatOk(pid, nd.c[i])
                                         /\ LET b == Bound(pid, n) IN \A i, j \in 1..Len(b) : i # j => b[i][1] # b[j][1]
      [] nd.o = "palt" -> /\ PatOk(pid, nd.c[1]) /\ PatOk(pid, nd.c[2])
                          /\ RangeOf(Bound(pid, nd.c[1])) = RangeOf(Bound(pid, nd.c[2]))
      [] OTHER -> TRUE

RECURSIVE Chk(_, _, _, _)
ChkSeq(pid, ns, sc, cx) == FoldLeft(LAMBDA r, n : IF r.ok THEN Chk(pid, n, r.sc, cx) ELSE r, OkS(sc), ns)
(* check ns in sc; the scopes afterwards are those of sc again *)
ChkIn(pid, ns, sc, cx) == ChkSeq(pid, ns, sc, cx).ok
ChkBody(pid, ns, sc, cx) == LET r == ChkSeq(pid, ns, sc, cx) IN r.ok /\ Fits(r.sc, cx)
Chk(pid, n, sc, cx) ==
    LET nd == Node(pid, n)
        o == nd.o
        In == [cx EXCEPT !.top = FALSE]
        Loop == [cx EXCEPT !.top = FALSE, !.loop = TRUE]
        Keep(b) == IF b THEN OkS(sc) ELSE BadS
    IN
    CASE o = "bad" -> BadS          \* a text that is no program
      [] o = "var" -> Keep(Declares(sc, nd.s))
      [] o = "block" -> Keep(ChkBody(pid, nd.c, Nested(sc), In))
      [] o = "file" -> Keep(ChkBody(pid, nd.c, sc, cx))
      [] o = "fn" ->
            LET r == DeclareAll(Nested(sc), nd.p, RangeOf(nd.q), 1)
            IN Keep(r.ok /\ ChkBody(pid, Node(pid, nd.c[1]).c, r.sc, [fn |-> TRUE, loop |-> FALSE, top |-> FALSE, base |-> Len(sc)])
                       /\ FewCaptured(pid, nd.c[1], sc))
      [] o = "fnlet" ->
            LET r == Declare(sc, nd.s, FALSE)
            IN IF r.ok /\ ChkIn(pid, nd.c, r.sc, cx) THEN Declare(sc, nd.s, nd.i = 1) ELSE BadS
      [] o = "let" -> IF ChkIn(pid, nd.c, sc, cx) THEN DeclareAll(sc, nd.p, RangeOf(nd.q), 1) ELSE BadS
      [] o = "assign" -> Keep(Declares(sc, nd.s) /\ ~IsConst(sc, nd.s) /\ ChkIn(pid, nd.c, sc, cx))
      [] o = "letv" -> Declare(sc, nd.s, nd.i = 1)
      [] o = "tovar" -> Keep(Declares(sc, nd.s) /\ ~IsConst(sc, nd.s))
      [] o = "masgn" -> IF ChkIn(pid, nd.c, sc, cx) /\ (Node(pid, nd.c[Len(nd.c)]).o \in {"call", "mcall"} => Len(nd.q) - Len(nd.c) + 1 <= MaxResults)
                        THEN ChkSeq(pid, nd.q, sc, cx) ELSE BadS
      [] o = "while" -> Keep(ChkIn(pid, <<nd.c[1]>>, sc, cx) /\ ChkIn(pid, <<nd.c[2]>>, sc, Loop))
      [] o = "forc" ->
            LET r == Chk(pid, nd.c[1], Nested(sc), In)
            IN Keep(r.ok /\ ChkIn(pid, <<nd.c[2], nd.c[3]>>, r.sc, In) /\ ChkIn(pid, <<nd.c[4]>>, r.sc, Loop))
      [] o = "forin" -> Keep(ChkIn(pid, <<nd.c[1]>>, sc, cx)
                             /\ ChkIn(pid, <<nd.c[2]>>, Declare(Nested(sc), nd.p[1], FALSE).sc, Loop))
      [] o \in {"lcomp", "tcomp"} ->
            LET s == Declare(Nested(sc), nd.p[1], FALSE).sc
            IN Keep(ChkIn(pid, <<nd.q[1]>>, sc, cx) /\ ChkIn(pid, SubSeq(nd.q, 2, Len(nd.q)), s, cx) /\ ChkBody(pid, nd.c, s, cx))
      [] o = "match" ->
            Keep(/\ ChkIn(pid, nd.q, sc, cx)
                 /\ \A i \in 1..Len(nd.c) :
                      LET arm == Node(pid, nd.c[i])
                          b == Bound(pid, arm.c[1])
                          r == DeclareAll(Nested(sc), [j \in 1..Len(b) |-> b[j][1]], {j \in 1..Len(b) : b[j][2]}, 1)
                      IN /\ PatOk(pid, arm.c[1])
                         /\ r.ok /\ ChkIn(pid, arm.q, r.sc, In)
                         /\ ChkBody(pid, Node(pid, arm.c[2]).c, r.sc, In))
      [] o \in {"break", "continue"} -> Keep(cx.loop)
      [] o = "return" -> Keep(cx.fn /\ ChkIn(pid, nd.c, sc, cx))
      [] o = "export" -> Keep(cx.top /\ ChkIn(pid, nd.c, sc, cx))
      [] OTHER -> Keep(ChkIn(pid, nd.c, sc, In))

(* Sessions: what is accepted of the inputs, one after the other.  ok: for each of them; ood: the names that an input declared which was not
   accepted may or may not be declared afterwards: a session in which they occur again is not judged. *)
TopNames(pid, n) ==
    LET nd == Node(pid, n) IN
    CASE nd.o = "let" -> RangeOf(nd.p)
      [] nd.o = "fnlet" -> {nd.s}
      [] nd.o = "masgn" -> {Node(pid, t).s : t \in {u \in RangeOf(nd.q) : Node(pid, u).o = "letv"}}
      [] OTHER -> {}
SessionTop == [Top EXCEPT !.base = 1]       \* the variables of a session are in a table
SessionOk(pid, root) ==
    FoldLeft(LAMBDA r, n :
                LET nd == Node(pid, n)
                    c == IF nd.s = "x" THEN (IF ChkBody(pid, nd.c, Nested(r.sc), SessionTop) THEN OkS(r.sc) ELSE BadS)
                         ELSE IF nd.s = "bad" THEN BadS ELSE ChkSeq(pid, nd.c, r.sc, SessionTop)
                IN [sc |-> IF c.ok THEN c.sc ELSE r.sc, oks |-> Append(r.oks, c.ok),
                    dirty |-> r.dirty \union ((IF c.ok \/ nd.s = "x" THEN {} ELSE UNION {TopNames(pid, nd.c[i]) : i \in 1..Len(nd.c)}) \ r.names),
                    names |-> r.names \union (IF c.ok THEN UNION {TopNames(pid, nd.c[i]) : i \in 1..Len(nd.c)} ELSE {}),
                    ood |-> r.ood \/ Mentions(pid, n) \intersect r.dirty # {}],
             [sc |-> <<EmptyScope>>, oks |-> <<>>, dirty |-> {}, names |-> {}, ood |-> FALSE], Node(pid, root).c)

WellFormed(pid, root) == Chk(pid, root, <<EmptyScope>>, Top).ok
=============================================================================
