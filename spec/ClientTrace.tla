---------------------------- MODULE ClientTrace -----------------------------
(* Decides whether recorded conversions of the client library are those of   *)
(* Client: serialized variables, parsed responses, split service responses.  *)
EXTENDS Client, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i
L == Lines[i]
Judge ==
  CASE L.op = "var" -> (IF RoundTrip(L.v, L.type, L.mods) THEN {} ELSE {"model"})
                       \cup (IF Same(L.wire, Wire(L.v, L.type, L.mods)) THEN {} ELSE {"serialized"})
                       \cup (IF L.back.ok = "1" /\ Same(L.back.v, L.v) THEN {} ELSE {"parsed back"})
    [] L.op = "resp" -> LET w == TLCEval(Typed(L.v, L.type, L.mods))
                        IN IF w.ok = "open" \/ (w.ok = L.back.ok /\ (w.ok = "1" => Same(w.v, L.back.v))) THEN {} ELSE {"parsed"}
    [] OTHER -> LET w == TLCEval(Split(L.v))
                IN (IF Same(w.data, L.data) THEN {} ELSE {"data"}) \cup (IF w.errors = L.errors THEN {} ELSE {"errors"})
Init == i = 1
Next == /\ i <= N
        /\ LET bad == IF L.r = "failure" THEN {"failure"} ELSE Judge
           IN bad # {} => PrintT(<<"REJECT", L.id, 1, bad>>)
        /\ i' = i + 1
Reached == i <= N \/ PrintT(<<"DONE", N>>)
=============================================================================
