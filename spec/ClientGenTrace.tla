--------------------------- MODULE ClientGenTrace ---------------------------
(* Decides whether recorded uses of generated clients are those of ClientGen: *)
(* the request they carry, their types, the variables they send and the      *)
(* responses they make.  A line "client" has the schema and the request; the *)
(* lines after it which name it are uses of that client.                     *)
EXTENDS ClientGen, Json, IOUtils
P == INSTANCE Parser
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i
L == Lines[i]
Made == Lines[L.w]
(* The trees of two documents, wherever their parts are.                     *)
RECURSIVE SameTree(_, _)
SameTree(x, y) == x.k = y.k /\ x.n = y.n /\ Len(x.c) = Len(y.c) /\ \A j \in 1..Len(x.c) : SameTree(x.c[j], y.c[j])
SameTrees(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : SameTree(a[j], b[j])
TreeOf(b, s) == LET T == TLCEval(P!Lex(b, s)) IN IF T[Len(T)].t = "bad" THEN P!No ELSE P!Document(T, b)
Judge ==
  LET W == Made.schema
      D == Made.doc
      fs == TLCEval(Shape(W, D, <<[t |-> Made.root, sel |-> D.op.sel]>>))
  IN CASE L.op = "info" ->
            LET asked == TLCEval(TreeOf(L.b, L.s))
                text == TLCEval(TreeOf(L.tb, L.ts))
            IN (IF asked.i = 0 THEN {"model"} ELSE {})
               \cup (IF text.i # 0 /\ SameTrees(asked.n, text.n) THEN {} ELSE {"text"})
               \cup (IF SameTrees(asked.n, L.tree) THEN {} ELSE {"request object"})
               \cup (IF L.validated = "1" THEN {} ELSE {"validated"})
               \cup (IF L.vars = InTypes(W, D.vars, "", 1) THEN {} ELSE {"types of variables"})
               \cup (IF L.fields = OutTypes(W, fs, "", 1) THEN {} ELSE {"types of the response"})
       [] L.op = "vars" -> IF Same(L.wire, Document(W, D.vars, L.v)) THEN {} ELSE {"variables"}
       [] OTHER -> LET e == TLCEval(IF L.v.t = "Map" THEN ParsedFields(W, L.v, fs) ELSE Yes(Anything))
                   IN IF e.ok = L.back.ok /\ (e.ok = "1" => Matches(e.v, L.back.v)) THEN {} ELSE {"response"}
Init == i = 1
Next == /\ i <= N
        /\ LET bad == IF L.op = "client" THEN {} ELSE IF L.r = "failure" THEN {"failure"} ELSE Judge
           IN bad # {} => PrintT(<<"REJECT", L.id, 1, bad>>)
        /\ i' = i + 1
Reached == i <= N \/ PrintT(<<"DONE", N>>)
=============================================================================
