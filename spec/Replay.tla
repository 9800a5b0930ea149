------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Replays programs and what the real interpreter did with them: PROGS is  *)
(* a file with an array of                                                 *)
(*    [nodes, root, out, code, err, lines, mode, objs, leak, host, mods, *)
(*     disk, files]                                                        *)
(* out, code, err: what it printed, its status, and the kind of the error  *)
(* it reported; lines: the lines it reported, <<0>> if they do not matter; *)
(* mode "c": only the syntax check was run; objs: there may be host        *)
(* objects; leak: memory that was not released remained at the end; host:  *)
(* the functions of the host; mods: the modules; disk: there were files,   *)
(* and these were there in the end.                                        *)
(* For each one, a verdict is printed at the end of each execution the     *)
(* specification allows:                                                   *)
(*    ok        it printed exactly out, and ended with code                *)
(*    bad       it did not                                                 *)
(*    ood       it left the domain of the specification                    *)
(* The program conforms if one of its executions is ok.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Progs == JsonDeserialize(IOEnv.PROGS)
NodeOf(pid, n) == Progs[pid].nodes[n]
RecordedOf(pid) == Progs[pid].out
TruncatedOf(pid) == Progs[pid].code = 98
HostOf(pid) == Progs[pid].host
ModsOf(pid) == Progs[pid].mods
WithObjsOf(pid) == Progs[pid].objs

STEPS == 12000       \* executions that take more steps are abandoned
BUDGET == 12000      \* and so are the executions of a program once a worker has explored this many states of them
ASSUME \A pid \in 1..Len(Progs) : TLCSet(pid, 0)
VARIABLE m
Y == INSTANCE Yasl WITH Node <- NodeOf, Recorded <- RecordedOf, Truncated <- TruncatedOf, WithObjs <- WithObjsOf, Host <- HostOf, Mods <- ModsOf
S == INSTANCE Static WITH Node <- NodeOf

Kind == [c \in {0, 1} |-> ""] @@ (2 :> "Error") @@ (4 :> "SyntaxError") @@ (5 :> "TypeError") @@ (6 :> "DivisionByZeroError")
        @@ (7 :> "ValueError") @@ (10 :> "AssertError") @@ (11 :> "StackOverflow")
RECURSIVE MatchLines(_, _, _, _)
MatchLines(ls, tr, i, j) ==
    IF j > Len(tr) THEN i > Len(ls)
    ELSE \/ ~tr[j].r /\ MatchLines(ls, tr, i, j + 1)
         \/ i <= Len(ls) /\ (tr[j].l = 0 \/ tr[j].l = ls[i]) /\ MatchLines(ls, tr, i + 1, j + 1)
LinesOk(p, x) == p.lines = <<0>> \/ x.code < 5 \/ MatchLines(p.lines, x.tr, 1, 1)
(* at the end, what is not part of a cycle has been released *)
Alive(x) == {i \in 1..Len(x.hp) : x.hp[i].t = "obj" /\ ~x.hp[i].gone}
Released(p, x) == (p.leak \/ Alive(x) # {}) => (LET C == Y!Cyclic(x) IN C # {} /\ Alive(x) \subseteq C)
FilesOk(p, x) == Y!FilesAre(x.hp, p.files)
Agrees(p, x0) ==
    LET x == Y!Deaths(x0) IN
    /\ x.ph = "end"
    /\ Released(p, x)
    /\ x.code = p.code
    /\ x.pos = Len(p.out)
    /\ p.err = "?" \/ Kind[x.code] = p.err
    /\ LinesOk(p, x)
    /\ p.disk => FilesOk(p, x)
Verdict(x) ==
    CASE x.ph = "ood" -> "ood"
      [] x.ph = "end" /\ Agrees(Progs[x.pid], x) -> "ok"
      [] OTHER -> "bad"
Detail(x) ==
    IF x.ph = "end" THEN (IF Progs[x.pid].disk /\ ~FilesOk(Progs[x.pid], x) THEN "the files: " \o ToString(Y!Disk(x.hp).a) ELSE IF Released(Progs[x.pid], Y!Deaths(x)) THEN ToString(x.tr) ELSE "what is not part of a cycle is not released")
    ELSE IF x.ph \in {"ood", "mismatch"} /\ Len(x.vs) > 0 THEN x.vs[1].s ELSE ""

Init == \E pid \in 1..Len(Progs) : m = [Y!Init0(pid, Progs[pid].root) EXCEPT !.ph = "check"]
Check == /\ m.ph = "check"
         /\ m' = IF NodeOf(m.pid, Progs[m.pid].root).o = "session"
                 THEN LET r == S!SessionOk(m.pid, Progs[m.pid].root) IN
                      (IF r.ood THEN [m EXCEPT !.ph = "ood", !.k = <<>>, !.vs = <<[t |-> "str", i |-> 0, s |-> "names of a rejected input"]>>]
                       ELSE [m EXCEPT !.ph = "run", !.oks = r.oks])
                 ELSE IF S!WellFormed(m.pid, Progs[m.pid].root)
                 THEN (IF Progs[m.pid].mode = "c" THEN [m EXCEPT !.ph = "end", !.k = <<>>]
                       ELSE [m EXCEPT !.ph = "run",
                                      !.oks = [name \in DOMAIN ModsOf(m.pid) |-> ModsOf(m.pid)[name] # 0 /\ S!WellFormed(m.pid, ModsOf(m.pid)[name])]])
                 ELSE [m EXCEPT !.ph = "end", !.code = 4, !.k = <<>>]
Report == /\ m.ph \in {"end", "ood", "mismatch"}
          /\ PrintT(<<"VERDICT", m.pid, Verdict(m), m.pos, m.code, Detail(m)>>)
          /\ m' = [m EXCEPT !.ph = "done"]
\* K steps of the machine at a time, as long as there is no choice
K == 40
Ticks == [i \in 1..K |-> i]
Within == TLCGet("level") < STEPS \div K /\ TLCGet(m.pid) < BUDGET \div K /\ TLCSet(m.pid, TLCGet(m.pid) + 1)
Advance(xs, i) == IF Cardinality(xs) # 1 THEN xs
                  ELSE LET x == CHOOSE x \in xs : TRUE IN IF x.ph = "run" THEN Y!Step(x) ELSE xs
Run == /\ m.ph = "run"
       /\ IF Within THEN m' \in FoldLeft(Advance, {m}, Ticks)
          ELSE m' = [m EXCEPT !.ph = "ood", !.k = <<>>, !.vs = <<[t |-> "str", i |-> 0, s |-> "budget"]>>]
Next == Check \/ Run \/ Report
Spec == Init /\ [][Next]_m

RefsValid == Y!RefsValid
EnvValid == Y!EnvValid
MapsValid == Y!MapsValid
DepthValid == Y!DepthValid
=============================================================================
