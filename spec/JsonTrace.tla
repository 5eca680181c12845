------------------------------ MODULE JsonTrace -----------------------------
(* Decides whether recorded conversions between JSON text and values are     *)
(* right: each line has a text, what reading it gave, and, if the text was   *)
(* written by the library, the value it was written for.                     *)
EXTENDS JsonText, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i, nok
L == Lines[i]
Open(v) == AnyOf(v, {"Huge"}) \/ Twice(v)
Judge ==
  LET r == TLCEval(Text(L.b, L.s, L.num))
  IN IF L.op = "write"
     THEN LET want == Plain(L.of)
          IN [ok |-> 1, bad |-> (IF r.i = 0 \/ r.v # want THEN {"written"} ELSE {}) \cup (IF L.back.r = "ok" /\ L.back.v = want THEN {} ELSE {"read back"})]
     ELSE IF r.i = 0 THEN [ok |-> 0, bad |-> {}]
     ELSE IF AnyOf(r.v, {"Big"}) THEN [ok |-> 1, bad |-> IF L.back.r = "error" THEN {} ELSE {"altered integer"}]
     ELSE IF Open(r.v) \/ L.open = "1" THEN [ok |-> 0, bad |-> {}]
     ELSE [ok |-> 1, bad |-> IF L.back.r = "ok" /\ L.back.v = r.v THEN {} ELSE {"read"}]
Init == i = 1 /\ nok = 0
Next == /\ i <= N
        /\ LET r == Judge
           IN /\ r.bad # {} => PrintT(<<"REJECT", L.id, 1, r.bad>>)
              /\ nok' = nok + r.ok
        /\ i' = i + 1
Reached == i <= N \/ (PrintT(<<"DONE", N>>) /\ PrintT(<<"COUNT", nok>>))
=============================================================================
