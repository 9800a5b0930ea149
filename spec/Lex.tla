--------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* The lexical structure of YASL: how a text, a sequence of characters, is *)
(* divided into tokens.  A token is [k, s, i, l]: its kind, its characters *)
(* or digits or its number, and the line it is on.  Kinds:                 *)
(*   int float str id op                                                   *)
(*   semi                 the end of a statement: s is ";", "nl" for a     *)
(*                        line break, or "cnl" for one in a comment        *)
(*   istr iend imid ilast the parts of an interpolated str, "a#{b}c#{d}e": *)
(*                        istr a, the tokens of b, iend, imid c, those of  *)
(*                        d, iend, ilast e                                 *)
(*   eof                                                                   *)
(*                                                                         *)
(* The state of the lexer is a record                                      *)
(*   i     the position in the text                                        *)
(*   l     the line                                                        *)
(*   in    for each interpolation it is in, how many braces are open       *)
(*   toks  the tokens up to here                                           *)
(*   ph    "lex", "done", "bad" for a text that is not a program, or "ood" *)
(*   why   for ood: the reason                                             *)
(***************************************************************************)
EXTENDS Strs, SequencesExt
CONSTANT CHARS      \* the character with code n is CHARS[n + 1]

Tok(k, s, i, l) == [k |-> k, s |-> s, i |-> i, l |-> l]

IdStart(c) == IsAlpha(c) \/ c \in {"_", "$"}
IdChar(c) == IdStart(c) \/ IsDigit(c)
Reserved == {"header", "global", "enum", "struct", "pragma", "yield", "do", "ifdef", "elseifdef", "use", "no", "pure", "consteval",
             "constexpr", "constfold", "extern", "in", "typename"}
Keywords == {"break", "const", "continue", "else", "elseif", "export", "fn", "for", "if", "echo", "let", "return", "undef", "while", "len",
             "assert", "match", "true", "false"}
Ops3 == {"...", "<<=", ">>=", "===", "!==", "**=", "//=", "&&=", "&^=", "||=", "??="}
Ops2 == {":=", "^=", "+=", "-=", "->", "==", "=~", "!=", "!~", "~=", "*=", "**", "/=", "//", "%=", "<=", "<<", "<-", ">=", ">>", "&=", "&&",
         "&^", "|=", "||", "??"}
Ops1 == {";", "(", ")", "[", "]", "{", "}", ".", ",", "^", "+", "-", "!", "~", "*", "/", "%", "<", ">", "=", "&", "|", "?", ":"}

(* tokens after which a line break ends the statement *)
EndsOp == {"break", "continue", ")", "]", "}", "undef", "true", "false"}
Ends(toks) == toks # <<>> /\ LET t == Last(toks) IN t.k \in {"id", "str", "int", "float", "ilast"} \/ (t.k = "op" /\ t.s \in EndsOp)

C(t, i) == IF i <= Len(t) THEN t[i] ELSE ""
RECURSIVE Skip(_, _, _)      \* the first position from i on with a character that is not in S
Skip(t, i, S) == IF i <= Len(t) /\ t[i] \in S THEN Skip(t, i + 1, S) ELSE i
RECURSIVE Until(_, _, _)     \* the first position from i on with the character c, or the end
Until(t, i, c) == IF i > Len(t) \/ t[i] = c THEN i ELSE Until(t, i + 1, c)
RECURSIVE CommentEnd(_, _)   \* the position of the */, 0 if there is none
CommentEnd(t, i) == IF i >= Len(t) THEN 0 ELSE IF t[i] = "*" /\ t[i + 1] = "/" THEN i ELSE CommentEnd(t, i + 1)
Chars(t, i, j) == FoldLeft(LAMBDA a, b : a \o b, "", SubSeq(t, i, j))
RECURSIVE IdEnd(_, _)
IdEnd(t, i) == IF i <= Len(t) /\ IdChar(t[i]) THEN IdEnd(t, i + 1) ELSE i

(* white space and comments from i on; ends: whether a line break ends a statement.  r: "tok" what follows is a token, "eof", "nl" or "cnl"
   for a line break that matters, "bad" *)
RECURSIVE Blank(_, _, _, _)
Blank(t, i, l, ends) ==
    LET c == C(t, i) IN
    CASE c = "" -> [i |-> i, l |-> l, r |-> "eof"]
      [] c = "\n" -> IF ends THEN [i |-> i + 1, l |-> l + 1, r |-> "nl"] ELSE Blank(t, i + 1, l + 1, ends)
      [] c \in {" ", "\t"} -> Blank(t, i + 1, l, ends)
      [] c = "#" -> Blank(t, Until(t, i, "\n"), l, ends)
      [] c = "/" /\ C(t, i + 1) = "*" ->
            LET e == CommentEnd(t, i + 2)
                n == Cardinality({j \in i..e : t[j] = "\n"})
            IN IF e = 0 THEN [i |-> i, l |-> l, r |-> "bad"]
               ELSE IF n > 0 /\ ends THEN [i |-> e + 2, l |-> l + n, r |-> "cnl"]
               ELSE Blank(t, e + 2, l + n, ends)
      [] OTHER -> [i |-> i, l |-> l, r |-> "tok"]

------------------------------------------------------------------------------
(* numbers.  [r, i, s]: r = "ok", "bad" or "ood"; the position after it, its digits *)
DEC == {"0","1","2","3","4","5","6","7","8","9"}
HEX == DEC \union {"a","b","c","d","e","f","A","B","C","D","E","F"}
BINARY == {"0", "1"}
Digits(t, i, D) ==      \* separators may follow the first digit; the meaning of ones behind the last is not defined
    LET e == Skip(t, i, D \union {"_"}) IN
    IF C(t, i) \notin D THEN [r |-> "bad", i |-> i, s |-> ""]
    ELSE [r |-> IF t[e - 1] = "_" THEN "ood" ELSE "ok", i |-> e, s |-> FoldLeft(LAMBDA a, b : IF b = "_" THEN a ELSE a \o b, "", SubSeq(t, i, e - 1))]
NumTok(r, k, v, i, l) == [r |-> IF IsOod(v) THEN "ood" ELSE r, i |-> i, t |-> Tok(k, v.s, v.i, l)]
IntTok(d, b, l) == NumTok(d.r, "int", IF d.r = "ok" THEN ParseDigits(d.s, b, 0) ELSE OOD, d.i, l)
Number(t, i, l) ==
    LET c == t[i]  b == C(t, i + 1) IN
    IF c = "0" /\ b \in {"x", "X"} THEN IntTok(Digits(t, Skip(t, i + 2, {"_"}), HEX), 16, l)
    ELSE IF c = "0" /\ b \in {"b", "B"} THEN IntTok(Digits(t, Skip(t, i + 2, {"_"}), BINARY), 2, l)
    ELSE LET w == Digits(t, i, DEC) IN
         IF C(t, w.i) # "." \/ C(t, w.i + 1) \notin DEC THEN IntTok(w, 10, l)
         ELSE LET f == Digits(t, w.i + 1, DEC)
                  x == C(t, f.i) \in {"e", "E"}
                  sg == C(t, f.i + 1) \in {"+", "-"}
                  e == Digits(t, f.i + (IF sg THEN 2 ELSE 1), DEC)
                  ev == ParseDigits(e.s, 10, 0)
              IN IF ~x THEN NumTok(IF w.r = "ok" THEN f.r ELSE w.r, "float", IF "ood" \in {w.r, f.r} THEN OOD ELSE FloatOf(w.s, f.s, 0), f.i, l)
                 ELSE IF C(t, f.i + 1) = "_" THEN [r |-> "ood"]
                 ELSE IF e.r = "bad" THEN [r |-> "bad"]
                 ELSE IF "ood" \in {w.r, f.r, e.r} \/ IsOod(ev) \/ NumI(ev) > 99 THEN [r |-> "ood"]
                 ELSE NumTok("ok", "float", FloatOf(w.s, f.s, IF C(t, f.i + 1) = "-" THEN -ev.i ELSE ev.i), e.i, l)

------------------------------------------------------------------------------
(* strs.  The characters from i on up to one in Stop: [r, i, s]; r = "ok", "bad" or "ood"; i: the position of what ended it *)
Escapes == [c \in {"a"} |-> CHARS[8]] @@ ("b" :> CHARS[9]) @@ ("f" :> CHARS[13]) @@ ("n" :> "\n") @@ ("r" :> CHARS[14]) @@ ("t" :> "\t")
           @@ ("v" :> CHARS[12]) @@ ("0" :> CHARS[1]) @@ ("'" :> "'") @@ ("\"" :> "\"") @@ ("#" :> "#") @@ ("\\" :> "\\")
RECURSIVE StrFrom(_, _, _, _)
StrFrom(t, i, Stop, acc) ==
    LET c == C(t, i)  d == C(t, i + 1) IN
    CASE c \in Stop -> [r |-> "ok", i |-> i, s |-> acc]
      [] c \in {"", "\n"} -> [r |-> "bad", i |-> i, s |-> ""]
      [] c = "\\" /\ d = "x" -> IF C(t, i + 2) \in HEX /\ C(t, i + 3) \in HEX
                                THEN StrFrom(t, i + 4, Stop, acc \o CHARS[DigitVal(t[i + 2]) * 16 + DigitVal(t[i + 3]) + 1])
                                ELSE [r |-> "bad", i |-> i, s |-> ""]
      [] c = "\\" /\ d # "x" -> IF d \in DOMAIN Escapes THEN StrFrom(t, i + 2, Stop, acc \o Escapes[d]) ELSE [r |-> "bad", i |-> i, s |-> ""]
      [] OTHER -> StrFrom(t, i + 1, Stop, acc \o c)

------------------------------------------------------------------------------
Start == [i |-> 1, l |-> 1, in |-> <<>>, toks |-> <<>>, ph |-> "lex", why |-> ""]
Stop(x, ph, why) == [x EXCEPT !.ph = ph, !.why = why]
Add(x, tok, i) == [x EXCEPT !.toks = Append(@, tok), !.i = i]

(* a part of a str in double quotes from i on, up to its end or the next interpolation; first: whether it is the first part *)
Part(t, x, i, first) ==
    LET p == StrFrom(t, i, {"\"", "#"}, "") IN
    IF p.r # "ok" THEN Stop(x, p.r, "str")
    ELSE IF t[p.i] = "\"" THEN Add(x, Tok(IF first THEN "str" ELSE "ilast", p.s, 0, x.l), p.i + 1)
    ELSE IF C(t, p.i + 1) = "{" THEN [Add(x, Tok(IF first THEN "istr" ELSE "imid", p.s, 0, x.l), p.i + 2) EXCEPT !.in = Append(@, 0)]
    ELSE IF C(t, p.i + 1) \in {" ", "\t", "\n", "#", "/"} THEN Stop(x, "ood", "white space behind a #")
    ELSE Stop(x, "bad", "")

(* one token *)
Step(t, x0) ==
    LET b == Blank(t, x0.i, x0.l, Ends(x0.toks))
        x == [x0 EXCEPT !.i = b.i, !.l = b.l]
        i == b.i
        c == C(t, i)
        afterDot == x.toks # <<>> /\ Last(x.toks).k = "op" /\ Last(x.toks).s \in {".", "->"}
        s3 == Chars(t, i, IF i + 2 <= Len(t) THEN i + 2 ELSE Len(t))
        s2 == IF i < Len(t) THEN c \o t[i + 1] ELSE ""
    IN
    CASE b.r = "bad" -> Stop(x, "bad", "comment")
      [] b.r = "eof" -> [Add(x, Tok("eof", "", 0, x.l), i) EXCEPT !.ph = "done"]
      [] b.r \in {"nl", "cnl"} -> Add(x, Tok("semi", b.r, 0, x.l), i)
      [] b.r = "tok" /\ IsDigit(c) -> LET n == Number(t, i, x.l) IN IF n.r = "ok" THEN Add(x, n.t, n.i) ELSE Stop(x, n.r, "number")
      [] b.r = "tok" /\ IdStart(c) ->
            LET e == IdEnd(t, i)  s == Chars(t, i, e - 1) IN
            IF afterDot THEN Add(x, Tok("id", s, 0, x.l), e)
            ELSE IF s \in Reserved THEN Stop(x, "bad", s)
            ELSE Add(x, Tok(IF s \in Keywords THEN "op" ELSE "id", s, 0, x.l), e)
      [] b.r = "tok" /\ c = "'" -> LET p == StrFrom(t, i + 1, {"'"}, "") IN IF p.r = "ok" THEN Add(x, Tok("str", p.s, 0, x.l), p.i + 1) ELSE Stop(x, p.r, "str")
      [] b.r = "tok" /\ c = "`" ->
            LET e == Until(t, i + 1, "`") IN
            IF e > Len(t) THEN Stop(x, "bad", "str")
            ELSE LET s == Chars(t, i + 1, e - 1) IN Add([x EXCEPT !.l = @ + Cardinality({j \in i..e : t[j] = "\n"})], Tok("str", s, 0, x.l), e + 1)
      [] b.r = "tok" /\ c = "\"" -> Part(t, x, i + 1, TRUE)
      [] b.r = "tok" /\ c = "}" /\ x.in # <<>> /\ Last(x.in) = 0 ->        \* the end of an interpolation
            Part(t, [Add(x, Tok("iend", "", 0, x.l), i + 1) EXCEPT !.in = Front(@)], i + 1, FALSE)
      [] b.r = "tok" /\ c = ";" -> Add(x, Tok("semi", ";", 0, x.l), i + 1)
      [] b.r = "tok" /\ s3 \in Ops3 -> Add(x, Tok("op", s3, 0, x.l), i + 3)
      [] b.r = "tok" /\ s3 \notin Ops3 /\ s2 \in Ops2 -> Add(x, Tok("op", s2, 0, x.l), i + 2)
      [] b.r = "tok" /\ s3 \notin Ops3 /\ s2 \notin Ops2 /\ c \in (Ops1 \ {";"}) /\ ~(c = "}" /\ x.in # <<>> /\ Last(x.in) = 0) ->
            [Add(x, Tok("op", c, 0, x.l), i + 1) EXCEPT
                !.in = IF @ = <<>> THEN @ ELSE IF c = "{" THEN [@ EXCEPT ![Len(@)] = @ + 1] ELSE IF c = "}" THEN [@ EXCEPT ![Len(@)] = @ - 1] ELSE @]
      [] OTHER -> Stop(x, "bad", c)
==============================================================================
