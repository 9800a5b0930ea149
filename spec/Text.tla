--------------------------------- MODULE Text ---------------------------------
(***************************************************************************)
(* Reads texts: TEXTS is a file with [chars, texts], the characters by     *)
(* their codes, and an array of texts, each an array of characters.  Each  *)
(* is divided into tokens, one at a time, and parsed.  The trees are       *)
(* written to files OUT.n; for each text a line with what it is is         *)
(* printed: "ok", "no" for what is not a program, or "ood".                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Input == JsonDeserialize(IOEnv.TEXTS)
CharsOf == Input.chars
VARIABLES n, x
P == INSTANCE Parse WITH CHARS <- CharsOf

Text == Input.texts[n]
Init == n \in 1..Len(Input.texts) /\ x = P!Start
K == 60
Ticks == [i \in 1..K |-> i]
Lex == /\ x.ph = "lex"
       /\ x' = FoldLeft(LAMBDA y, i : IF y.ph = "lex" THEN P!Step(Text, y) ELSE y, x, Ticks)
       /\ n' = n
Say(what, why) == PrintT(<<"TEXT", n, what, why>>)
Parse == /\ x.ph \in {"done", "bad", "ood"}
         /\ x' = [x EXCEPT !.ph = "parsed", !.toks = <<>>]
         /\ n' = n
         /\ CASE x.ph = "bad" -> Say("no", "")
              [] x.ph = "ood" -> Say("ood", x.why)
              [] OTHER -> LET r == P!Program(x.toks) IN
                          IF r.st = "ok" THEN JsonSerialize(IOEnv.OUT \o ToString(n), r.t) /\ Say("ok", "")
                          ELSE Say(r.st, IF r.st = "ood" THEN r.t.s ELSE "")
Next == Lex \/ Parse
Spec == Init /\ [][Next]_<<n, x>>
(* the lexer always gets further, and its tokens are in order *)
Progress == x.i >= 1 /\ x.i <= Len(Text) + 1 /\ \A j \in 1..(Len(x.toks) - 1) : x.toks[j].l <= x.toks[j + 1].l
Nesting == \A j \in 1..Len(x.in) : x.in[j] >= 0
===============================================================================
