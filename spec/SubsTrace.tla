------------------------------ MODULE SubsTrace ------------------------------
(* Decides whether recorded histories of subscribe, unsubscribe and deliver  *)
(* are behaviours of Subs: every step is a transition, its effects are the   *)
(* returned key, the callbacks with their documents, and the resolver calls. *)
EXTENDS Subs, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i, s, live
vars == <<i, s, live>>

Case == Lines[i]
W == Lines[Case.w]
Objs == W.objs
Step == Case.steps[s]
Doc == Case.docs[Step.di]
Root == Case.root                    \* the default subscription object, "" if there is none

(* ------------------------------------------- what was executed, as bags -- *)
SameDirs(P, c, x) == SameU(x.od, P.od) /\ SameU(x.fd, c.fd) /\ SameU(x.fdd, c.fdd) /\ SameU(x.fsd, c.fsd) /\ SameU(x.ifd, c.ifd)
EqCall(d, P, c, x) ==
  /\ x.e = "call" /\ x.p = c.p /\ x.o = c.o /\ x.f = c.f /\ x.rn = c.rn /\ x.line = c.line /\ x.col = c.col
  /\ x.ctx = P.ctx /\ x.st = P.st /\ SameU(x.raw, c.raw)
  /\ Len(x.args) = Len(c.args)
  /\ \A j \in 1..Len(c.args) : c.args[j].ok = x.args[j].r.ok /\ (c.args[j].ok = "1" => SameU(c.args[j].v, x.args[j].r.v))
  /\ d => SameDirs(P, c, x)
EqHook(d, P, h, x) == x.p = h.p /\ x.o = h.o /\ x.ctx = P.ctx /\ x.st = P.st /\ (d => SameU(x.od, P.od))

(* Everything plans Ps execute: calls, begin hooks, end hooks.               *)
Expected(Ps) ==
  Concat([a \in 1..Len(Ps) |->
    Concat([b \in 1..Len(Ps[a].s) |->
      LET h == Ps[a].s[b]
      IN <<[e |-> "begin", P |-> Ps[a], c |-> h]>> \o (IF h.fb THEN <<>> ELSE <<[e |-> "end", P |-> Ps[a], c |-> h]>>)
         \o [j \in 1..Len(h.calls) |-> [e |-> "call", P |-> Ps[a], c |-> h.calls[j]]]], 1)], 1)
Fits(d, x, w) == x.e = w.e /\ IF x.e = "call" THEN EqCall(d, w.P, w.c, x) ELSE EqHook(d, w.P, w.c, x)
RECURSIVE Bag(_, _, _)
Bag(d, xs, ws) ==
  IF xs = <<>> THEN ws = <<>>
  ELSE \E j \in 1..Len(ws) :
         /\ Fits(d, xs[1], ws[j])
         /\ \A m \in 1..(j - 1) : ~Fits(d, xs[1], ws[m])
         /\ Bag(d, Tail(xs), SubSeq(ws, 1, j - 1) \o SubSeq(ws, j + 1, Len(ws)))
Hooks(ev) == SelectSeq(ev, LAMBDA x : x.e \in {"call", "begin", "end"})
ExecutedOk(Ps, ev) == Bag(TRUE, Hooks(ev), Expected(Ps))
(* What is wrong with the executed calls: only their directives, or more.    *)
ExecutedBad(Ps, ev, what) ==
  IF ExecutedOk(Ps, ev) THEN {}
  ELSE {what} \cup IF Bag(FALSE, Hooks(ev), Expected(Ps)) THEN {"directives"} ELSE {}
Callbacks(ev) == SelectSeq(ev, LAMBDA x : x.e = "cb")

(* The recipients rs were called, in key order unless asynchronously, with the result of their own selection. *)
CalledBad(rs, obj, ev, ordered) ==
  LET cbs == Callbacks(ev)
      ids == [j \in 1..Len(cbs) |-> cbs[j].sid]
      want == [j \in 1..Len(rs) |-> rs[j].sid]
      right == IF ordered THEN ids = want ELSE Len(ids) = Len(want) /\ Elems(ids) = Elems(want)
  IN IF ~right THEN {"callbacks"}
     ELSE UNION {LET r == rs[CHOOSE m \in 1..Len(rs) : rs[m].sid = cbs[j].sid]
                     P == PlanOf(W, Objs, obj, r, "Subscription")
                 IN IF cbs[j].r # "doc" THEN {"document"}
                    ELSE IF ResponseOk(P, cbs[j].doc) /\ ErrorsOk(P, cbs[j].doc) THEN {} ELSE {"document"}
                 : j \in 1..Len(cbs)}
Plans(rs, obj) == [j \in 1..Len(rs) |-> PlanOf(W, Objs, obj, rs[j], "Subscription")]

(* ------------------------------------------------------------- subscribe - *)
K == OpIndex(Doc, Step.opname)
MustFail == Doc.valid # "1" \/ K = 0 \/ (K # 0 /\ Doc.ops[K].type # "subscription")
Notified == Step.launch # "sync" /\ Root # ""
RootHook == IF Root = "" THEN <<>> ELSE IF Objs[Root].begin # <<>> THEN Objs[Root].begin ELSE Objs[Root].end
New == Registration(W, Case.rootType, Doc, K, Step.vars, Step.st, Step.sid, Step.key)
Nested(l) == IF Step.nested = "" THEN <<>> ELSE Recipients(l, PlainEvent(Step.nested))

SubscribeStep ==
  IF MustFail
  THEN [live |-> live, bad |-> (IF Step.r \in {"key", "ok"} THEN {"registered"} ELSE {}) \cup (IF Hooks(Step.ev) = <<>> THEN {} ELSE {"notify"})]
  ELSE IF Written(Doc, Doc.ops[K].sel) > 1 /\ Step.r = "schema" /\ Step.ev = <<>>     \* more than one root field is written: may be refused
  THEN [live |-> live, bad |-> {}]
  ELSE IF Notified /\ RootHook # <<>>
  THEN [live |-> live,
        bad |-> (IF Step.r = "key" THEN {"registered"}
                 ELSE IF RootHook[1].k = "runtime" THEN (IF Step.r = "exception" /\ Step.what = RootHook[1].m THEN {} ELSE {"notifyerr"})
                 ELSE IF Step.r = "schema" /\ Step.what = RootHook[1].m THEN {} ELSE {"notifyerr"})
                \cup ExecutedBad(<<PlanOf(W, Objs, Root, New, "NotifySubscribe")>>, Step.ev, "notify")]
  ELSE IF Step.r # "key"
  THEN [live |-> live, bad |-> {"refused"}]
  ELSE [live |-> IF Live(live, Step.key) THEN live ELSE Insert(live, New),
        bad |-> (IF Live(live, Step.key) THEN {"key"} ELSE {})
                \cup (LET nested == IF Notified THEN Nested(Insert(live, New)) ELSE <<>>
                      IN CalledBad(nested, Step.nobj, Step.ev, TRUE)
                         \cup ExecutedBad((IF Notified THEN <<PlanOf(W, Objs, Root, New, "NotifySubscribe")>> ELSE <<>>) \o Plans(nested, Step.nobj), Step.ev, "notify"))]

UnsubscribeStep ==
  LET was == Live(live, Step.key)
      r == live[CHOOSE j \in 1..Len(live) : live[j].key = Step.key]
      note == was /\ Notified
      nested == IF note THEN Nested(live) ELSE <<>>
  IN [live |-> Remove(live, Step.key),
      bad |-> (IF Step.r = "ok" THEN {} ELSE {"unsub"})
              \cup CalledBad(nested, Step.nobj, Step.ev, TRUE)
              \cup ExecutedBad((IF note THEN <<PlanOf(W, Objs, Root, r, "NotifyUnsubscribe")>> ELSE <<>>) \o Plans(nested, Step.nobj), Step.ev, "notify")]

DeliverStep ==
  LET obj == IF Step.obj # "" THEN Step.obj ELSE Root
      ev == [field |-> Step.field, form |-> Step.form, args |-> Step.args, dirs |-> Step.dirs]
      rs == Recipients(live, ev)
  IN [live |-> live,
      bad |-> IF obj = "" THEN (IF Step.r = "exception" /\ Step.ev = <<>> THEN {} ELSE {"answer"})
              ELSE (IF Step.r = "ok" THEN {} ELSE {"answer"})
                   \cup CalledBad(rs, obj, Step.ev, Step.launch # "async")
                   \cup ExecutedBad(Plans(rs, obj), Step.ev, "executed")]

(* Hooks and resolvers see the launch policy of the call, and only an asynchronous one is run by other threads. *)
La == IF Step.launch = "sync" THEN "deferred" ELSE Step.launch
PolicyBad ==
  UNION {LET x == Step.ev[j]
         IN (IF x.e = "cb" \/ x.la = La THEN {} ELSE {"launch"}) \cup (IF La = "deferred" => x.thr = "1" THEN {} ELSE {"thread"})
         : j \in 1..Len(Step.ev)}

(* A subscribe which was refused left nothing behind.                        *)
RefusedBad ==
  IF \E j \in 1..Len(Step.ev) : Step.ev[j].e = "cb" /\ \E m \in 1..(s - 1) :
        Case.steps[m].op = "subscribe" /\ Case.steps[m].sid = Step.ev[j].sid /\ Case.steps[m].r # "key"
  THEN {"leftover"} ELSE {}

Result == CASE Step.op = "subscribe" -> SubscribeStep
            [] Step.op = "unsubscribe" -> UnsubscribeStep
            [] Step.op = "deliver" -> DeliverStep
            [] OTHER -> [live |-> live, bad |-> {}]

Init == i = 1 /\ s = 0 /\ live = <<>>
Skip == /\ i <= N /\ s = 0
        /\ IF Case.k = "case" /\ Len(Case.steps) > 0 THEN i' = i /\ s' = 1 ELSE i' = i + 1 /\ s' = 0
        /\ live' = <<>>
Take == /\ i <= N /\ s > 0
        /\ LET r == Result
               bad == r.bad \cup PolicyBad \cup RefusedBad
           IN /\ bad # {} => PrintT(<<"REJECT", Case.id, s, bad>>)
              /\ live' = IF s < Len(Case.steps) THEN r.live ELSE <<>>
        /\ IF s < Len(Case.steps) THEN i' = i /\ s' = s + 1 ELSE i' = i + 1 /\ s' = 0
Next == Skip \/ Take
Spec == Init /\ [][Next]_vars
View == <<i, s>>
Reached == i <= N \/ PrintT(<<"DONE", N>>)
=============================================================================
