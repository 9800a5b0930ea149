-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The objects on the heap: lists, tables, sets and functions, and the     *)
(* operations of an ideal sequence, map and set on them.  A heap is a      *)
(* sequence of objects; the value Ref(t, i) refers to object i.            *)
(*                                                                         *)
(*   list   a: its elements       u: the order of the elements is unknown  *)
(*   table  k, a: keys and the values they map to                          *)
(*   set    k: its members                                                 *)
(*   fn     n: the node that defines it, env: its variables                *)
(*   obj    an object of the host: n: its number, gone: it is destroyed    *)
(*   disk   the files: k: their names, a: their contents (see Files)       *)
(*   file   a handle of a file                                             *)
(*                                                                         *)
(* The order of the keys of tables and sets is an artefact of the          *)
(* implementation: wherever it can be observed, every order is allowed.    *)
(***************************************************************************)
EXTENDS Strs, SequencesExt

ListO(a) == [t |-> "list", a |-> a, k |-> <<>>, mt |-> 0, u |-> FALSE]
TableO(k, a) == [t |-> "table", a |-> a, k |-> k, mt |-> 0, u |-> FALSE]
SetO(k) == [t |-> "set", a |-> <<>>, k |-> k, mt |-> 0, u |-> FALSE]
FnO(n, env) == [t |-> "fn", n |-> n, env |-> env, mt |-> 0, k |-> <<>>, a |-> <<>>, u |-> FALSE]
ObjO(n) == [t |-> "obj", n |-> n, gone |-> FALSE, mt |-> 0, k |-> <<>>, a |-> <<>>, u |-> FALSE]

MAXPERM == 4      \* beyond so many keys, orders are not enumerated

Hashable(v) == v.t \in {"bool", "int", "float", "str", "userptr"}
KeyBad(v) == v.t = "float" /\ v.s = "nan"     \* NaN is not equal to itself: not modelled as a key

IdxOf(seq, v) == LET S == {i \in 1..Len(seq) : seq[i] = v} IN IF S = {} THEN 0 ELSE MinOf(S)
RemoveIdx(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
InsertIdx(seq, i, v) == SubSeq(seq, 1, i - 1) \o <<v>> \o SubSeq(seq, i, Len(seq))
RevSeq(seq) == [i \in 1..Len(seq) |-> seq[Len(seq) + 1 - i]]

(* maps *)
TGet(o, key) == LET i == IdxOf(o.k, key) IN IF i = 0 THEN NONE ELSE o.a[i]
TPut(o, key, v) == LET i == IdxOf(o.k, key)
                   IN IF i = 0 THEN [o EXCEPT !.k = Append(@, key), !.a = Append(@, v)]
                      ELSE [o EXCEPT !.a[i] = v]
TDel(o, key) == LET i == IdxOf(o.k, key)
                IN IF i = 0 THEN o ELSE [o EXCEPT !.k = RemoveIdx(@, i), !.a = RemoveIdx(@, i)]
RECURSIVE TMerge(_, _, _)
TMerge(o, p, i) == IF i > Len(p.k) THEN o ELSE TMerge(TPut(o, p.k[i], p.a[i]), p, i + 1)

(* sets *)
SHas(o, v) == IdxOf(o.k, v) # 0
SAdd(o, v) == IF SHas(o, v) THEN o ELSE [o EXCEPT !.k = Append(@, v)]
SDel(o, v) == LET i == IdxOf(o.k, v) IN IF i = 0 THEN o ELSE [o EXCEPT !.k = RemoveIdx(@, i)]
Members(o) == {o.k[i] : i \in 1..Len(o.k)}
SelectK(o, Test(_)) == SetO(SelectSeq(o.k, Test))
SUnion(a, b) == LET T(v) == ~SHas(a, v) IN SetO(a.k \o SelectSeq(b.k, T))
SInter(a, b) == LET T(v) == SHas(b, v) IN SetO(SelectSeq(a.k, T))
SDiff(a, b)  == LET T(v) == ~SHas(b, v) IN SetO(SelectSeq(a.k, T))
SSym(a, b)   == SUnion(SDiff(a, b), SDiff(b, a))

------------------------------------------------------------------------------
(* orders in which the keys can be visited, as sequences of indices *)
IdSeq(n) == [i \in 1..n |-> i]
PermsOf(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
PermTab == [n \in 0..MAXPERM |-> PermsOf(n)]
Orders(o) == IF Len(o.k) <= MAXPERM THEN PermTab[Len(o.k)] ELSE {IdSeq(Len(o.k))}
BigOrder(o) == Len(o.k) > MAXPERM
Permute(seq, p) == [i \in 1..Len(seq) |-> seq[p[i]]]

------------------------------------------------------------------------------
(* Text of values.  A value prints as a set of strings, one for each order  *)
(* its tables and sets can be visited in.  path: the containers around it.  *)
(* is there a host object without methods among the elements of v (and their elements), and no doubt about the others *)
RECURSIVE Parts(_, _, _)
Parts(hp, v, path) == IF v.t \in {"list", "table"} /\ v.i \notin path
                      THEN UNION {Parts(hp, hp[v.i].a[j], path \union {v.i}) : j \in 1..Len(hp[v.i].a)} ELSE {v}
NoText(hp, v) == LET P == Parts(hp, v, {}) IN
    /\ \E p \in P : p.t \in {"obj", "file"}
    /\ \A p \in P : p.t \in {"undef", "bool", "int", "float", "str", "list", "table"} \/ (p.t \in {"obj", "file"} /\ hp[p.i].mt = 0)
RECURSIVE Printable(_, _, _, _, _)
\* is the text of v within the domain of the specification; any: also if there are too many orders to enumerate them
Printable(hp, v, path, top, any) ==
    CASE v.t \in {"fn", "cfn", "ood", "obj", "file", "userptr"} -> FALSE
      [] v.t = "list" -> \/ v.i \in path
                         \/ (any \/ ~hp[v.i].u) /\ \A j \in 1..Len(hp[v.i].a) : Printable(hp, hp[v.i].a[j], path \union {v.i}, FALSE, any)
      [] v.t = "table" -> \/ v.i \in path
                          \/ /\ \A j \in 1..Len(hp[v.i].k) : hp[v.i].k[j].t # "userptr"
                             /\ any \/ ~BigOrder(hp[v.i])
                             /\ \A j \in 1..Len(hp[v.i].a) : Printable(hp, hp[v.i].a[j], path \union {v.i}, FALSE, any)
      [] v.t = "set" -> (any \/ ~BigOrder(hp[v.i])) /\ (top \/ hp[v.i].mt = 0)
      [] OTHER -> TRUE
(* in how many orders can the keys within v be visited (more than MAXTEXTS: many) *)
MAXTEXTS == 150
RECURSIVE NOrders(_, _, _)
ProdCap(a, b) == IF a > MAXTEXTS \/ b > MAXTEXTS THEN MAXTEXTS + 1 ELSE a * b
NOrders(hp, v, path) ==
    IF ~IsRef(v) \/ v.t \in {"fn", "obj", "file"} \/ v.i \in path THEN 1
    ELSE LET o == hp[v.i]
             own == IF v.t = "list" THEN 1 ELSE IF BigOrder(o) THEN MAXTEXTS + 1 ELSE Cardinality(Orders(o))
         IN FoldLeft(LAMBDA acc, e : IF acc > MAXTEXTS \/ ~IsRef(e) THEN acc ELSE ProdCap(acc, NOrders(hp, e, path \union {v.i})), own, o.a)
TextOk(hp, v) == Printable(hp, v, {}, TRUE, FALSE) /\ NOrders(hp, v, {}) <= MAXTEXTS

Cat(A, B) == {a \o b : a \in A, b \in B}
RECURSIVE Texts(_, _, _)
RECURSIVE JoinTexts(_, _, _, _, _)
(* texts of the elements of seq from i on, separated by sep *)
JoinTexts(hp, seq, i, sep, path) ==
    IF i > Len(seq) THEN {""}
    ELSE IF i = Len(seq) THEN Texts(hp, seq[i], path)
    ELSE Cat(Cat(Texts(hp, seq[i], path), {sep}), JoinTexts(hp, seq, i + 1, sep, path))
RECURSIVE EntryTexts(_, _, _, _, _)
EntryTexts(hp, o, p, i, path) ==
    IF i > Len(o.k) THEN {""}
    ELSE Cat(Cat({(IF i = 1 THEN "" ELSE ", ") \o ScalarStr(o.k[p[i]]) \o ": "}, Texts(hp, o.a[p[i]], path)),
             EntryTexts(hp, o, p, i + 1, path))
Texts(hp, v, path) ==
    CASE v.t = "list" ->
            IF v.i \in path THEN {"[...]"}
            ELSE Cat(Cat({"["}, JoinTexts(hp, hp[v.i].a, 1, ", ", path \union {v.i})), {"]"})
      [] v.t = "table" ->
            IF v.i \in path THEN {"{...}"}
            ELSE UNION {Cat(Cat({"{"}, EntryTexts(hp, hp[v.i], p, 1, path \union {v.i})), {"}"}) : p \in Orders(hp[v.i])}
      [] v.t = "set" ->
            UNION {Cat(Cat({"set("}, JoinTexts(hp, Permute(hp[v.i].k, p), 1, ", ", path)), {")"}) : p \in Orders(hp[v.i])}
      [] OTHER -> {ScalarStr(v)}

(* The text of a value in a given str: out has it from after position p on, up to one of the positions Ends *)
LitAt(out, p, s) == IF Sub(out, p + 1, p + Len(s)) = s THEN {p + Len(s)} ELSE {}
RECURSIVE Ends(_, _, _, _, _)
RECURSIVE EndsAll(_, _, _, _, _, _)
RECURSIVE EndsAny(_, _, _, _, _, _, _)
\* items: pairs of the text in front of a value, and the value; in this order
EndsAll(hp, items, i, path, out, p) ==
    IF i > Len(items) THEN {p}
    ELSE UNION {EndsAll(hp, items, i + 1, path, out, r) :
                r \in UNION {Ends(hp, items[i][2], path, out, q) : q \in LitAt(out, p, (IF i = 1 THEN "" ELSE ", ") \o Printed(items[i][1]))}}
\* in any order
EndsAny(hp, items, rem, first, path, out, p) ==
    IF rem = {} THEN {p}
    ELSE UNION {UNION {EndsAny(hp, items, rem \ {i}, FALSE, path, out, r) :
                       r \in UNION {Ends(hp, items[i][2], path, out, q) : q \in LitAt(out, p, (IF first THEN "" ELSE ", ") \o Printed(items[i][1]))}}
                : i \in rem}
Ends(hp, v, path, out, p) ==
    LET o == hp[v.i]
        Close(P, s) == UNION {LitAt(out, q, s) : q \in P}
    IN
    CASE v.t = "list" ->
            IF v.i \in path THEN LitAt(out, p, "[...]")
            ELSE Close(UNION {IF o.u THEN EndsAny(hp, [j \in 1..Len(o.a) |-> <<"", o.a[j]>>], 1..Len(o.a), TRUE, path \union {v.i}, out, q)
                              ELSE EndsAll(hp, [j \in 1..Len(o.a) |-> <<"", o.a[j]>>], 1, path \union {v.i}, out, q)
                              : q \in LitAt(out, p, "[")}, "]")
      [] v.t = "table" ->
            IF v.i \in path THEN LitAt(out, p, "{...}")
            ELSE Close(UNION {EndsAny(hp, [j \in 1..Len(o.k) |-> <<ScalarStr(o.k[j]) \o ": ", o.a[j]>>], 1..Len(o.k), TRUE, path \union {v.i}, out, q)
                              : q \in LitAt(out, p, "{")}, "}")
      [] v.t = "set" ->
            Close(UNION {EndsAny(hp, [j \in 1..Len(o.k) |-> <<"", o.k[j]>>], 1..Len(o.k), TRUE, path, out, q) : q \in LitAt(out, p, "set(")}, ")")
      [] OTHER -> LitAt(out, p, Printed(ScalarStr(v)))

------------------------------------------------------------------------------
(* sorting: the sequences of the elements of seq in non-decreasing order *)
CmpElem(a, b) == IF a.t = "str" THEN CmpStr(a.s, b.s) ELSE CmpNum(a, b)
SortLt(a, b) == CmpElem(a, b) = "lt"
Sorted(seq) == SortSeq(seq, SortLt)
SortDistinct(seq) ==      \* elements that are equal are the same, too
    LET b == Sorted(seq) IN \A i \in 1..Len(seq) - 1 : CmpElem(b[i], b[i + 1]) = "eq" => b[i] = b[i + 1]
Sortable(seq) == \/ \A i \in 1..Len(seq) : IsNum(seq[i])
                 \/ \A i \in 1..Len(seq) : seq[i].t = "str"
SortOod(seq) == \/ \E i \in 1..Len(seq) : seq[i].t = "float" /\ seq[i].s = "nan"
                \/ \E i \in 1..Len(seq) : IsOod(seq[i])
SortResults(seq) ==   \* all orders of elements that are equal but differ in type
    LET base == Sorted(seq)
    IN IF SortDistinct(seq) THEN {base}
       ELSE {Permute(base, p) : p \in {q \in Orders([k |-> base]) :
                 \A i \in 1..(Len(base) - 1) : CmpElem(base[q[i]], base[q[i + 1]]) # "gt"}}
=============================================================================
