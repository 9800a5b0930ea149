-------------------------------- MODULE Entry --------------------------------
(***************************************************************************)
(* The ways of giving a program to the interpreter, as one machine: a      *)
(* program is started through an entry point, is rejected or accepted,     *)
(* runs if the entry point runs programs, and ends.  What a program does   *)
(* once it runs is not described here (see Yasl), but that it does not     *)
(* depend on the entry point is: the machine chooses one behaviour for the *)
(* text, and every entry point has to show its part of it.                 *)
(*                                                                         *)
(* PROGS is a file with groups of runs [mode, code, out, err] of the same  *)
(* text through the different entry points.                                *)
(*   b s  from memory, with output to a stream, or to a str                *)
(*   f    from a file                                                      *)
(*   F E  the tool, given a file, or the text itself                       *)
(*   c C  syntax checks, by the API, and by the tool                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Groups == JsonDeserialize(IOEnv.PROGS)
Checks == {"c", "C"}
SYNTAX == 4
VARIABLE m      \* [g, i, ph, beh]: group, entry point, phase, and the behaviour of the text as far as it is known
vars == m
Unknown == [known |-> FALSE]
Runs(g) == Groups[g].runs
Run(x) == Runs(x.g)[x.i]

Init == \E g \in 1..Len(Groups) : m = [g |-> g, i |-> 1, ph |-> "start", accepted |-> Unknown, effect |-> Unknown]

\* the text is rejected: with the same report everywhere, and without having done anything
Learn(known, v) == IF known.known THEN known ELSE [known |-> TRUE, v |-> v]
Reject == /\ m.ph = "start" /\ Run(m).code = SYNTAX
          /\ Run(m).out = ""
          /\ LET a == Learn(m.accepted, [ok |-> FALSE, err |-> Run(m).err])
             IN /\ a.v = [ok |-> FALSE, err |-> Run(m).err]
                /\ m' = [m EXCEPT !.accepted = a, !.ph = "next"]
\* it is accepted ...
Accept == /\ m.ph = "start" /\ Run(m).code # SYNTAX
          /\ LET a == Learn(m.accepted, [ok |-> TRUE, err |-> ""])
             IN /\ a.v = [ok |-> TRUE, err |-> ""]
                /\ m' = [m EXCEPT !.accepted = a, !.ph = IF Run(m).mode \in Checks THEN "checked" ELSE "run"]
\* ... and, by a syntax check, nothing more is done,
Checked == /\ m.ph = "checked" /\ Run(m).code = 0 /\ Run(m).out = "" /\ Run(m).err = ""
           /\ m' = [m EXCEPT !.ph = "next"]
\* while the others run it, to the same effect
Effect(r) == [out |-> r.out, err |-> r.err, code |-> r.code]
Execute == /\ m.ph = "run"
           /\ LET e == Learn(m.effect, Effect(Run(m)))
              IN e.v = Effect(Run(m)) /\ m' = [m EXCEPT !.effect = e, !.ph = "next"]
NextEntry == /\ m.ph = "next"
             /\ m' = IF m.i < Len(Runs(m.g)) THEN [m EXCEPT !.i = @ + 1, !.ph = "start"] ELSE [m EXCEPT !.ph = "all"]
Report(v) == PrintT(<<"VERDICT", m.g, v, m.i, 0, m.ph>>) /\ m' = [m EXCEPT !.ph = "done"]
Conforms == m.ph = "all" /\ Report("ok")
Step == Reject \/ Accept \/ Checked \/ Execute \/ NextEntry
Stuck == m.ph \notin {"all", "done"} /\ ~ENABLED Step /\ Report("bad")
Next == Step \/ Conforms \/ Stuck
Spec == Init /\ [][Next]_vars
=============================================================================
