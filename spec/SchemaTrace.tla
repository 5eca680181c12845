----------------------------- MODULE SchemaTrace -----------------------------
(* Decides whether the verdicts recorded from the schema generator are right: *)
(* consistent documents are accepted; all others are refused with one of the  *)
(* explanations which apply.                                                  *)
EXTENDS SchemaDoc, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i, nok
vars == <<i, nok>>

L == Lines[i]
LoneCR(b) == \E j \in 1..Len(b) : b[j] = 13 /\ At(b, j + 1) # 10
(* `What went wrong' in front of what a parser says                          *)
Syntax == "Invalid GraphQL: "
IsSyntax(s) == Len(s) >= Len(Syntax) /\ SubSeq(s, 1, Len(Syntax)) = Syntax

Judge ==
  LET T == TLCEval(Lex(L.b, L.s))
      D == TLCEval(IF T[Len(T)].t = "bad" THEN No ELSE Document(T, L.b))
      open == OpenText(T, L.b) \/ LoneCR(L.b)
      ps == TLCEval(Problems(D.n))
      refused == L.rc = "1" /\ L.said # ""
  IN IF L.rc \notin {"0", "1"} THEN [bad |-> {"failure"}, ok |-> 0, want |-> {}]
     ELSE IF open THEN [bad |-> {}, ok |-> 0, want |-> {}]
     ELSE IF D.i = 0 THEN
       [bad |-> IF T[Len(T)].t = "eof" /\ OtherReading(T, L.b) THEN {} ELSE IF refused /\ IsSyntax(L.said) THEN {} ELSE {"accepted a syntax error"}, ok |-> 0, want |-> {}]
     ELSE IF Apart(T) \/ NotConst(D.n) THEN [bad |-> IF refused \/ ps = {} THEN {} ELSE {"accepted"}, ok |-> 0, want |-> ps]   \* see known-findings.txt
     ELSE IF ps = {} THEN [bad |-> IF L.rc = "0" THEN {} ELSE {"refused"}, ok |-> 1, want |-> {}]
     ELSE [bad |-> IF L.rc = "0" THEN {"accepted"} ELSE IF L.said \in ps THEN {} ELSE {"explanation"}, ok |-> 0, want |-> ps]

Init == i = 1 /\ nok = 0
Next == /\ i <= N
        /\ LET r == Judge
           IN /\ r.bad # {} => PrintT(<<"REJECT", L.id, 1, r.bad>>)
              /\ nok' = nok + r.ok
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Reached == i <= N \/ (PrintT(<<"DONE", N>>) /\ PrintT(<<"COUNT", nok>>))
=============================================================================
