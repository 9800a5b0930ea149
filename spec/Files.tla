-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* The files that programs read and write.  The disk is an object of the   *)
(* heap: k, the names of the files, a, their contents; it comes into being *)
(* when a file is opened for the first time.  A handle:                    *)
(*   f        its file: a number on the disk                               *)
(*   pos      where it reads and writes next, -1 if that is not known      *)
(*   rd, wr, app   what it can do: read, write, write only at the end      *)
(*   open     it is not closed                                             *)
(*   dirty    others may not see yet what it wrote                         *)
(*   seen     it has read (or sought, which may read), and what it reads next may have been read then  *)
(*   stale    seen, and the file was changed by another handle since       *)
(* The content of a file is OOD where it depends on when what is written   *)
(* gets to the file.                                                       *)
(***************************************************************************)
EXTENDS Heap

SUCCESS == 0   EXPORTED == 1   ERROR == 2   SYNTAX == 4   TYPE == 5   DIV0 == 6   VALUE == 7   ASSERT == 10   OVERFLOW == 11
OODERR == 99

(* the results of a builtin function *)
Rs(v, hp) == {[e |-> 0, v |-> v, hp |-> hp]}
R1(v, hp) == IF IsOod(v) THEN {[e |-> OODERR, v |-> <<>>, hp |-> hp]} ELSE Rs(<<v>>, hp)
Err(c) == {[e |-> c, v |-> <<>>, hp |-> <<>>]}
OodR == Err(OODERR)
New(hp, o, t) == R1(Ref(t, Len(hp) + 1), Append(hp, o))

------------------------------------------------------------------------------
DiskO(k, a) == [t |-> "disk", k |-> k, a |-> a, mt |-> 0, u |-> FALSE]
FileO(f, pos, rd, wr, app) == [t |-> "file", f |-> f, pos |-> pos, rd |-> rd, wr |-> wr, app |-> app, open |-> TRUE, dirty |-> FALSE, seen |-> FALSE,
                               stale |-> FALSE, mt |-> 0, k |-> <<>>, a |-> <<>>, u |-> FALSE]
\* what is there at first: a file, and a directory, "dir"
StartDisk == DiskO(<<StrV("old")>>, <<StrV("one\ntwo\n\nlast")>>)
DiskAt(hp) == LET S == {i \in 1..Len(hp) : hp[i].t = "disk"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Disk(hp) == IF DiskAt(hp) = 0 THEN StartDisk ELSE hp[DiskAt(hp)]
WithDisk(hp) == IF DiskAt(hp) = 0 THEN Append(hp, StartDisk) ELSE hp
Content(hp, f) == Disk(hp).a[f]
Others(hp, h, f) == {i \in 1..Len(hp) : i # h /\ hp[i].t = "file" /\ hp[i].f = f}
Unsettled(hp, h, f) == \E i \in Others(hp, h, f) : hp[i].dirty
(* the file f has another content because of handle h *)
Change(hp, h, f, c) == [i \in 1..Len(hp) |->
    IF hp[i].t = "disk" THEN [hp[i] EXCEPT !.a[f] = IF Unsettled(hp, h, f) THEN OOD ELSE c]
    ELSE IF i \in Others(hp, h, f) THEN [hp[i] EXCEPT !.stale = @ \/ hp[i].seen] ELSE hp[i]]

PlainName(s) == s # "" /\ AllStr(LAMBDA c : IsUpper(c) \/ IsLower(c) \/ IsDigit(c), s)
OpenFile(a, hp0) ==
    LET m == IF a[2].t = "undef" THEN "r" ELSE a[2].s
        c == Ch(m, 1)
        plus == Len(m) = 2
        name == a[1].s
        hp == WithDisk(hp0)
        d == Disk(hp)
        f0 == IdxOf(d.k, a[1])
        f == IF f0 = 0 THEN Len(d.k) + 1 ELSE f0
        made == IF f0 = 0 THEN [hp EXCEPT ![DiskAt(hp)].k = Append(@, a[1]), ![DiskAt(hp)].a = Append(@, StrV(""))]
                ELSE IF c = "w" THEN Change(hp, 0, f, StrV("")) ELSE hp
        len == IF Unsettled(hp, 0, f) \/ IsOod(Content(made, f)) THEN -1 ELSE Len(Content(made, f).s)
    IN IF a[2].t \notin {"str", "undef"} THEN Err(TYPE)
       ELSE IF Find(m, NUL) >= 0 THEN OodR
       ELSE IF Len(m) \notin {1, 2} \/ (plus /\ Ch(m, 2) # "+") THEN Err(VALUE)
       ELSE IF a[1].t # "str" THEN Err(TYPE)
       ELSE IF c \notin {"r", "w", "a"} THEN Err(VALUE)
       ELSE IF name = "" \/ StartsWith(name, "none/") THEN R1(UNDEF, hp0)
       ELSE IF ~PlainName(name) THEN OodR
       ELSE IF name = "dir" THEN (IF m = "r" THEN OodR ELSE R1(UNDEF, hp0))
       ELSE IF c = "r" /\ f0 = 0 THEN R1(UNDEF, hp0)
       ELSE New(made, FileO(f, IF m = "a" THEN len ELSE 0, plus \/ c = "r", plus \/ c # "r", c = "a"), "file")

EolAt(s, i) == LET S == {j \in i..Len(s) : Ch(s, j) = "\n"} IN IF S = {} THEN Len(s) + 1 ELSE MinOf(S)
ReadFile(h, how, hp) ==
    LET o == hp[h]
        c == Content(hp, o.f)
        e == EolAt(c.s, o.pos + 1)
        Upd(x) == [hp EXCEPT ![h] = x]
    IN IF how \notin {"a", "l"} \/ ~o.open THEN Err(VALUE)
       ELSE IF ~o.rd THEN R1(StrV(""), Upd(IF how = "a" THEN [o EXCEPT !.pos = -1, !.dirty = FALSE] ELSE o))
       ELSE IF IsOod(c) \/ Unsettled(hp, h, o.f) \/ o.stale THEN OodR
       ELSE IF how = "a" THEN R1(c, Upd([o EXCEPT !.pos = Len(c.s), !.seen = TRUE, !.dirty = FALSE]))
       ELSE IF o.pos < 0 THEN OodR
       ELSE IF o.pos >= Len(c.s) THEN R1(StrV(""), Upd([o EXCEPT !.seen = TRUE]))
       ELSE R1(StrV(Sub(c.s, o.pos + 1, e - 1)), Upd([o EXCEPT !.pos = IF e > Len(c.s) THEN Len(c.s) ELSE e, !.seen = TRUE]))

WriteFile(h, s, hp) ==
    LET o == hp[h]
        c == Content(hp, o.f)
        n == Len(s)
        base == IF o.pos > Len(c.s) THEN c.s \o RepStr(NUL, o.pos - Len(c.s)) ELSE c.s
        lost == IsOod(c) \/ Unsettled(hp, h, o.f) \/ (~o.app /\ o.pos < 0)
        new == IF lost THEN OOD ELSE IF o.app THEN StrV(c.s \o s) ELSE StrV(Sub(base, 1, o.pos) \o s \o Sub(base, o.pos + n + 1, Len(base)))
        pos == IF o.app THEN (IF lost THEN -1 ELSE Len(new.s)) ELSE IF o.pos < 0 THEN -1 ELSE o.pos + n
    IN IF ~o.open THEN Err(VALUE)
       ELSE IF ~o.wr \/ n = 0 THEN R1(IntV(0), hp)
       ELSE IF o.pos > Len(c.s) + 300 THEN OodR
       ELSE R1(IntV(n), [Change(hp, h, o.f, new) EXCEPT ![h].pos = pos, ![h].dirty = TRUE])

SeekFile(h, whence, off, hp) ==
    LET o == hp[h]
        c == Content(hp, o.f)
        size == IF IsOod(c) \/ Unsettled(hp, h, o.f) THEN -1 ELSE Len(c.s)
        base == CASE whence = "set" -> 0 [] whence = "cur" -> o.pos [] OTHER -> size
        to == base + off
    IN IF ~o.open THEN Err(VALUE)
       ELSE IF base < 0 THEN OodR
       ELSE IF to < 0 THEN R1(FALSEV, hp)
       ELSE R1(TRUEV, [hp EXCEPT ![h].pos = to, ![h].dirty = FALSE, ![h].seen = @ \/ o.rd])

FileFn(name, a, hp) ==
    LET self == a[1]
        o == hp[self.i]
        m == IF a[2].t = "undef" THEN "l" ELSE a[2].s
        whence == IF a[2].t = "undef" THEN "set" ELSE a[2].s
        off == IF a[3].t = "undef" THEN IntV(0) ELSE a[3]
    IN
    CASE name = "file.read" ->
            IF a[2].t \notin {"str", "undef"} THEN Err(TYPE)
            ELSE IF Find(m, NUL) >= 0 THEN OodR
            ELSE IF Len(m) # 1 THEN Err(VALUE)
            ELSE IF self.t # "file" THEN Err(TYPE)
            ELSE ReadFile(self.i, m, hp)
      [] name = "file.write" ->
            IF self.t # "file" THEN Err(TYPE)
            ELSE IF ~o.open THEN Err(VALUE)
            ELSE IF a[2].t # "str" THEN Err(TYPE)
            ELSE WriteFile(self.i, a[2].s, hp)
      [] name = "file.seek" ->
            IF off.t # "int" \/ a[2].t \notin {"str", "undef"} THEN Err(TYPE)
            ELSE IF whence \notin {"set", "cur", "end"} THEN Err(VALUE)
            ELSE IF self.t # "file" THEN Err(TYPE)
            ELSE IF NumI(off) >= LIM \/ NumI(off) <= -LIM THEN OodR
            ELSE SeekFile(self.i, whence, off.i, hp)
      [] name = "file.flush" -> IF self.t # "file" THEN Err(TYPE) ELSE IF ~o.open THEN Err(VALUE) ELSE R1(TRUEV, [hp EXCEPT ![self.i].dirty = FALSE])
      [] name = "file.close" -> IF self.t # "file" THEN Err(TYPE) ELSE IF ~o.open THEN Err(VALUE)
                                ELSE R1(TRUEV, [hp EXCEPT ![self.i].dirty = FALSE, ![self.i].open = FALSE])

(* the files in the end, when all handles are closed: [n, c], the names and contents *)
FilesAre(hp, files) ==
    LET d == Disk(hp) IN
    /\ Len(files) = Len(d.k)
    /\ \A i \in 1..Len(files) : LET f == IdxOf(d.k, StrV(files[i].n)) IN f # 0 /\ (IsOod(d.a[f]) \/ d.a[f].s = files[i].c)
==============================================================================
