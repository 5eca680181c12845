----------------------------- MODULE ParseTrace -----------------------------
(* Decides whether recorded parses are what Parser defines: which texts are  *)
(* accepted, and the tree of those that are.                                 *)
EXTENDS Parser, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i, nok
vars == <<i, nok>>

L == Lines[i]
(* a carriage return alone: where lines end is left open                     *)
LoneCR(b) == \E j \in 1..Len(b) : b[j] = 13 /\ At(b, j + 1) # 10
RECURSIVE Eq(_, _, _)
Eq(x, y, pos) ==
  /\ x.k = y.k /\ x.n = y.n
  /\ pos => x.line = y.line /\ x.col = y.col
  /\ Len(x.c) = Len(y.c)
  /\ \A j \in 1..Len(x.c) : Eq(x.c[j], y.c[j], pos)
Seen(d, kind) == IF (d.k \in ExecutableKinds) = (kind = "exec") THEN d ELSE [d EXCEPT !.k = "other", !.n = "", !.c = <<>>]

Judge ==
  LET T == TLCEval(Lex(L.b, L.s))
      D == TLCEval(IF T[Len(T)].t = "bad" THEN No ELSE Document(T, L.b))
      pos == ~LoneCR(L.b)
      tree == L.r = "tree"
      right == /\ Len(L.tree) = Len(D.n)
               /\ \A j \in 1..Len(D.n) : Eq(Seen(D.n[j], L.kind), L.tree[j], pos)
  IN IF L.r \notin {"tree", "error"} THEN [bad |-> {"failure"}, ok |-> 0]
     ELSE IF OpenText(T, L.b) THEN [bad |-> {}, ok |-> 0]
     ELSE IF D.i = 0 THEN [bad |-> IF tree /\ ~(T[Len(T)].t = "eof" /\ OtherReading(T, L.b)) THEN {"accepted"} ELSE {}, ok |-> 0]
     ELSE IF tree THEN [bad |-> IF right THEN {} ELSE {"tree"}, ok |-> 1]
     ELSE IF Apart(T) \/ NotConst(D.n) THEN [bad |-> {}, ok |-> 0]         \* see known-findings.txt
     ELSE [bad |-> {"refused"}, ok |-> 1]

Init == i = 1 /\ nok = 0
Next == /\ i <= N
        /\ LET r == Judge
           IN /\ r.bad # {} => PrintT(<<"REJECT", L.id, 1, r.bad>>)
              /\ nok' = nok + r.ok
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Reached == i <= N \/ (PrintT(<<"DONE", N>>) /\ PrintT(<<"COUNT", nok>>))
=============================================================================
