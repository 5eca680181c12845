------------------------------ MODULE ExecTrace ------------------------------
(* Decides whether recorded executions are behaviours of Exec.               *)
(*                                                                          *)
(* The trace file holds worlds (schema and object graph) and cases (document,*)
(* steps, and what the library did).  Each event of a step is one transition *)
(* of the event machine; whatever the machine does not allow is recorded     *)
(* with the aspect that is wrong, printed, and the rest is still examined.   *)
EXTENDS Exec, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)

VARIABLES i, s, e, plan, st, bad
vars == <<i, s, e, plan, st, bad>>
View == <<i, s, e>>
None == [none |-> "1"]

Case == Lines[i]
World == Lines[Case.w]
Steps == Case.steps
Step == Steps[s]
Events == Step.ev
DocOf == Case.docs[Step.di]

Init == i = 1 /\ s = 0 /\ e = 0 /\ plan = None /\ st = None /\ bad = {}

RootOf(kind) == Case.roots[kind]

(* Plans which hold something the specification leaves open.                 *)
Open == plan.kind = "plan" /\ \E k \in 1..Len(plan.plan.s) : \E c \in Elems(plan.plan.s[k].calls) : \E a \in Elems(c.args) : a.ok = "?"

(* What is asked for: the plan of the selected operation, or why there is none. *)
Ask ==
  LET k == OpIndex(DocOf, Step.opname)
  IN IF DocOf.valid # "1" THEN [kind |-> "invalid"]
     ELSE IF k = 0 THEN [kind |-> "missing"]
     ELSE IF DocOf.ops[k].type = "subscription" THEN [kind |-> "subscription"]
     ELSE LET op == DocOf.ops[k]
          IN [kind |-> "plan",
              plan |-> OpPlan(World, World.objs, RootOf(op.type), DocOf, op, Step.vars,
                              IF op.type = "mutation" THEN "Mutation" ELSE "Query", Step.st)]

StartStep ==
  /\ e = 0
  /\ LET a == Ask
     IN /\ plan' = a
        /\ st' = IF a.kind = "plan" THEN Fresh(a.plan) ELSE None
        /\ bad' = {}
  /\ e' = 1
  /\ UNCHANGED <<i, s>>

P == plan.plan
CtxOk(x) == x.ctx = P.ctx /\ x.st = P.st /\ SameU(x.od, P.od)

CallBad(x, k, c) ==
     (IF c.o = x.o /\ c.f = x.f /\ c.rn = x.rn THEN {} ELSE {"calls"})
  \cup (IF CtxOk(x) THEN {} ELSE {"ctx"})
  \cup (IF World.gen = "1" THEN {} ELSE IF c.line = x.line /\ c.col = x.col THEN {} ELSE {"loc"})
  \cup (IF World.gen = "1" THEN {} ELSE IF SameU(c.raw, x.raw) THEN {} ELSE {"args"})
  \cup (IF /\ Len(c.args) = Len(x.args)
           /\ \A j \in 1..Len(c.args) : /\ c.args[j].ok = x.args[j].r.ok
                                        /\ c.args[j].ok = "1" => SameU(c.args[j].v, x.args[j].r.v)
        THEN {} ELSE {"conv"})
  \cup (IF SameU(c.fd, x.fd) /\ SameU(c.fdd, x.fdd) /\ SameU(c.fsd, x.fsd) /\ SameU(c.ifd, x.ifd) /\ SameU(x.od, P.od)
        THEN {} ELSE {"dirs"})

(* The launch policy of the request is the one resolvers and hooks see (a    *)
(* mutation is serial: it may ignore it), and nothing is run by another      *)
(* thread unless the policy asks for that.                                   *)
LaOf(l) == IF l = "default" THEN "deferred" ELSE l
PolicyBad(x) ==
  IF Step.launch = "free" THEN {} ELSE
     (IF x.la = LaOf(Step.launch) \/ (P.ctx = "Mutation" /\ x.la = "deferred") THEN {} ELSE {"launch"})
  \cup (IF LaOf(Step.launch) = "deferred" => x.thr = "1" THEN {} ELSE {"thread"})
(* Nobody waited for the result, and yet: an asynchronous query is answered; anything else is at least not underway for ever. *)
ReadyOk == Step.ready = "unknown" \/ Step.ready = "ready" \/ (Step.ready = "deferred" /\ (Step.launch # "async" \/ (plan.kind = "plan" /\ P.ctx = "Mutation")))

OnEvent(x) ==
  IF x.e \in {"returned", "done"} THEN [st |-> st, bad |-> {}]
  ELSE IF plan.kind # "plan" THEN [st |-> st, bad |-> {"calls"}]
  ELSE IF x.e = "begin"
  THEN LET k == SetAt(P, x.p)
       IN IF k = 0 \/ (k # 0 /\ st.begun[k]) THEN [st |-> st, bad |-> {"calls"}]
          ELSE [st |-> DoBegin(st, k),
                bad |-> (IF CanBegin(P, st, k) THEN {} ELSE IF SerialOk(P, st, P.s[k].root) THEN {"hooks"} ELSE {"serial"})
                        \cup (IF P.s[k].o = x.o THEN {} ELSE {"calls"}) \cup (IF CtxOk(x) THEN {} ELSE {"ctx"}) \cup PolicyBad(x)]
  ELSE IF x.e = "end"
  THEN LET k == SetAt(P, x.p)
       IN IF k = 0 \/ (k # 0 /\ st.ended[k]) THEN [st |-> st, bad |-> {"hooks"}]
          ELSE [st |-> DoEnd(st, k), bad |-> (IF CanEnd(P, st, k) THEN {} ELSE {"hooks"}) \cup (IF P.s[k].o = x.o THEN {} ELSE {"hooks"}) \cup (IF CtxOk(x) THEN {} ELSE {"ctx"}) \cup PolicyBad(x)]
  ELSE IF x.e = "call"
  THEN LET k == SetAt(P, Parent(x.p))
           js == IF k = 0 THEN {} ELSE {j \in 1..Len(P.s[k].calls) : P.s[k].calls[j].p = x.p}
       IN IF js = {} \/ x.p \in st.called THEN [st |-> st, bad |-> {"calls"}]
          ELSE LET j == CHOOSE j \in js : TRUE
               IN [st |-> [st EXCEPT !.ncalls[k] = @ + 1, !.called = @ \cup {x.p}],
                   bad |-> CallBad(x, k, P.s[k].calls[j]) \cup PolicyBad(x)
                           \cup (IF st.begun[k] /\ ~st.ended[k] THEN {} ELSE {"hooks"})
                           \cup (IF j = st.ncalls[k] + 1 THEN {} ELSE IF k = 1 /\ P.ctx = "Mutation" THEN {"serial"} ELSE {"order"})
                           \cup (IF k = 1 => EarlierDone(P, st, j) THEN {} ELSE {"serial"})
                           \cup (IF k # 1 => SerialOk(P, st, P.s[k].root) THEN {} ELSE {"serial"})]
  ELSE IF x.e = "ret"
  THEN [st |-> [st EXCEPT !.returned = @ \cup {x.p}], bad |-> IF x.p \in st.called /\ x.p \notin st.returned THEN {} ELSE {"calls"}]
  ELSE [st |-> st, bad |-> {"calls"}]

EventStep ==
  /\ e >= 1 /\ e <= Len(Events)
  /\ LET r == OnEvent(Events[e]) IN st' = r.st /\ bad' = bad \cup r.bad
  /\ e' = e + 1
  /\ UNCHANGED <<i, s, plan>>

FinishBad ==
  IF Step.r # "doc" THEN {"answer"}
  ELSE IF ~ReadyOk THEN {"ready"}
  ELSE IF plan.kind # "plan" THEN (IF IsErrorDoc(Step.doc) THEN {} ELSE {"answer"})
                                  \cup (IF Step.alone.t = "Null" \/ SameU(Step.doc, Step.alone) THEN {} ELSE {"disturbed"})
  ELSE (IF AllDone(P, st) THEN {} ELSE {"calls"})
       \cup (IF \A k \in 1..Len(P.s) : ~P.s[k].opt => (st.ncalls[k] = Len(P.s[k].calls)) THEN {} ELSE {"calls"})
       \cup (IF ResponseOk(P, Step.doc) THEN {} ELSE IF P.e # <<>> \/ "errors" \in Elems(Step.doc.k) THEN {"data", "failed"} ELSE {"data"})
       \cup (IF ErrorsOk(P, Step.doc) THEN {} ELSE {"errors"})

NextPos ==
  IF s < Len(Steps) THEN [i |-> i, s |-> s + 1] ELSE [i |-> i + 1, s |-> 0]

FinishStep ==
  /\ e = Len(Events) + 1
  /\ LET all == bad \cup FinishBad
     IN (all # {} /\ ~Open) => PrintT(<<"REJECT", Case.id, s, all>>)
  /\ i' = NextPos.i /\ s' = NextPos.s /\ e' = 0
  /\ plan' = None /\ st' = None /\ bad' = {}

SkipLine ==
  /\ s = 0
  /\ IF Lines[i].k = "case" /\ Len(Lines[i].steps) > 0
     THEN i' = i /\ s' = 1
     ELSE i' = i + 1 /\ s' = 0
  /\ e' = 0 /\ plan' = None /\ st' = None /\ bad' = {}

Finished == i > N /\ UNCHANGED vars

Next == \/ i <= N /\ s = 0 /\ SkipLine
        \/ i <= N /\ s > 0 /\ e = 0 /\ StartStep
        \/ i <= N /\ s > 0 /\ e > 0 /\ EventStep
        \/ i <= N /\ s > 0 /\ e > 0 /\ FinishStep
        \/ Finished

Spec == Init /\ [][Next]_vars
(* The whole file was read.                                                  *)
Reached == i <= N \/ PrintT(<<"DONE", N>>)
=============================================================================
