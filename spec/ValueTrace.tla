----------------------------- MODULE ValueTrace -----------------------------
(* Decides whether recorded histories of operations on response values are   *)
(* behaviours of ValueOps: after every step the whole pool is compared, the  *)
(* names that can be found, and which variables are equal.                   *)
EXTENDS ValueOps, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i, s, pool
vars == <<i, s, pool>>
C == Lines[i]
O == C.ops[s]
R == C.steps[s]
Empty(n) == [a \in 1..n |-> NullV]

RECURSIVE Found(_, _, _), Matches(_, _, _)
Found(x, names, a) == IF a > Len(names) THEN ""
                      ELSE (IF HasMember(x, names[a]) THEN ToString(IndexOf(x.k, names[a])) ELSE "-") \o "." \o Found(x, names, a + 1)
Matches(x, y, names) ==
  /\ x.t = y.t /\ x.v = y.v /\ x.k = y.k /\ x.j = y.j /\ Len(x.l) = Len(y.l)
  /\ y.f = (IF x.t = "Map" THEN Found(x, names, 1) ELSE "")
  /\ \A a \in 1..Len(x.l) : Matches(x.l[a], y.l[a], names)
Bad(q) ==
  LET n == Len(q.p)
  IN (IF R.r # q.r THEN {"outcome"} ELSE IF R.res # q.res THEN {"result"} ELSE {})
     \cup (IF \A a \in 1..n : q.p[a].t = "Gone" \/ Matches(q.p[a], R.pool[a], C.names) THEN {} ELSE {"content"})
     \cup (IF \A a, b \in 1..n : q.p[a].t = "Gone" \/ q.p[b].t = "Gone" \/ SubSeq(R.eq, (a - 1) * n + b, (a - 1) * n + b) = (IF q.p[a] = q.p[b] THEN "1" ELSE "0")
           THEN {} ELSE {"equality"})
     \cup (IF Keeps(pool, O, q) /\ \A a \in 1..n : WellFormed(q.p[a]) THEN {} ELSE {"model"})

Init == i = 1 /\ s = 1 /\ pool = IF N = 0 THEN <<>> ELSE Empty(Lines[1].n)
NextCase == i' = i + 1 /\ s' = 1 /\ pool' = IF i < N THEN Empty(Lines[i + 1].n) ELSE <<>>
Next == /\ i <= N
        /\ IF s > Len(C.ops) THEN NextCase
           ELSE IF s > Len(C.steps) THEN PrintT(<<"REJECT", C.id, s, {"failure"}>>) /\ NextCase
           ELSE LET q == Apply(pool, O)
                    bad == IF Enabled(pool, O) THEN Bad(q) ELSE {"model"}
                IN IF bad = {} THEN i' = i /\ s' = s + 1 /\ pool' = q.p
                   ELSE PrintT(<<"REJECT", C.id, s, bad>>) /\ NextCase
View == <<i, s>>
Reached == i <= N \/ PrintT(<<"DONE", N>>)
=============================================================================
