----------------------------- MODULE ValidTrace -----------------------------
(* Decides whether the verdicts of the library on recorded documents are     *)
(* those of Valid.  A case is a history of documents validated by one        *)
(* service; docs lists the documents, steps the order they were validated in.*)
EXTENDS Valid, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i
Case == Lines[i]
W == Lines[Case.w]

(* vs: the violations of each document of the case                           *)
Judge(vs, s) ==
  LET step == Case.steps[s]
      V(d) == vs[d]
  IN CASE step.op = "validate" ->
            IF step.r # "errors" THEN {"answer"}
            ELSE IF step.ok = "1" THEN V(step.di) \ {"coerce"}
            ELSE IF V(step.di) = {} THEN {"rejected"} ELSE {}
       (* a document with errors is answered with errors, and nothing of it runs or is registered *)
       [] step.op = "resolve" ->
            IF V(step.di) \ {"coerce"} = {} THEN {}
            ELSE IF step.r # "doc" THEN {"answer"}
            ELSE IF step.ok = "0" /\ step.ran = "0" THEN {} ELSE {"executed"}
       [] step.op = "subscribe" ->
            IF V(step.di) \ {"coerce"} = {} THEN {}
            ELSE IF step.r = "key" \/ step.ran = "1" THEN {"subscribed"} ELSE {}
       [] step.op = "deliver" ->
            IF \A k \in 1..Len(step.cbs) : \E j \in 1..(s - 1) :
                 /\ Case.steps[j].op = "subscribe" /\ Case.steps[j].sid = step.cbs[k]
                 /\ V(Case.steps[j].di) \ {"coerce"} = {}
            THEN {} ELSE {"subscribed"}
(* validating a document again reports what it reported the first time       *)
Again(s) == LET same == {k \in 1..(s - 1) : Case.steps[k].op = "validate" /\ Case.steps[k].di = Case.steps[s].di}
            IN IF Case.steps[s].op # "validate" \/ \A k \in same : Case.steps[k].errs = Case.steps[s].errs THEN {} ELSE {"changed"}

(* for the record: the rules some document of the case breaks alone          *)
Alone(vs) == {v \in {vs[d] : d \in 1..Len(vs)} : Cardinality(v) = 1 \/ (Cardinality(v) = 2 /\ "dirargs" \in v)}
Check ==
  LET vs == TLCEval([d \in 1..Len(Case.docs) |-> Violations(W, Case.docs[d])])
  IN /\ PrintT(<<"ALONE", UNION Alone(vs)>>)
     /\ \A s \in 1..Len(Case.steps) :
          LET bad == Judge(vs, s) \cup Again(s)
          IN bad # {} => PrintT(<<"REJECT", Case.id, s, bad>>)
Init == i = 1
Next == /\ i <= N /\ i' = i + 1
        /\ Case.k = "case" => Check
Spec == Init /\ [][Next]_i
Reached == i <= N \/ PrintT(<<"DONE", N>>)
=============================================================================
