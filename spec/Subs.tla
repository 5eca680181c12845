-------------------------------- MODULE Subs --------------------------------
(* Subscriptions of one service: registrations, events, notifications.       *)
(*                                                                          *)
(* The state is the sequence of live registrations.  Subscribe, Unsubscribe  *)
(* and Deliver are its transitions; what they execute is given by Exec.      *)
EXTENDS Exec

(* The root fields a subscription selects, and how many are written at all.  *)
RootFields(W, rootType, doc, op, vars) ==
  Coll([names |-> Elems(W.types[rootType].names), vars |-> vars, frags |-> doc.frags], op.sel, 1, NoDirs, <<>>)
RECURSIVE Written(_, _)
Written(doc, sels) ==
  IF sels = <<>> THEN 0
  ELSE (CASE sels[1].k = "field" -> 1
          [] sels[1].k = "spread" -> Written(doc, FragOf(doc.frags, sels[1].n).sel)
          [] OTHER -> Written(doc, sels[1].sel)) + Written(doc, Tail(sels))

(* A registration: the operation, what it sees, and what it listens to.      *)
Registration(W, rootType, doc, k, supplied, st, sid, key) ==
  LET op == doc.ops[k]
      vars == OpVars(op, supplied)
      rf == RootFields(W, rootType, doc, op, vars)
  IN [key |-> key, sid |-> sid, doc |-> doc, op |-> op, supplied |-> supplied, st |-> st,
      field |-> IF rf = <<>> THEN "" ELSE rf[1].s.n,
      args |-> IF rf = <<>> THEN EmptyMap ELSE ArgMap(rf[1].s.args, vars),
      dirs |-> IF rf = <<>> THEN EmptyMap ELSE DirMap(rf[1].s.dirs, vars)]

(* An event: field, arguments, directives; form says which of them are compared. *)
Covers(given, required) == \A i \in 1..Len(required.k) : HasMember(given, required.k[i]) /\ SameU(Member(given, required.k[i]), required.l[i])
Matches(r, ev) ==
  /\ r.field = ev.field
  /\ Covers(IF ev.form = "plain" THEN EmptyMap ELSE ev.args, r.args)
  /\ ev.form = "filter" \/ Covers(IF ev.form \in {"plain", "args"} THEN EmptyMap ELSE ev.dirs, r.dirs)
PlainEvent(field) == [field |-> field, form |-> "plain", args |-> EmptyMap, dirs |-> EmptyMap]

Live(live, key) == \E i \in 1..Len(live) : live[i].key = key
RECURSIVE Insert(_, _)
(* live registrations are kept in key order                                  *)
Insert(live, r) == IF live = <<>> \/ r.key < live[1].key THEN <<r>> \o live ELSE <<live[1]>> \o Insert(Tail(live), r)
Remove(live, key) == SelectSeq(live, LAMBDA r : r.key # key)
Recipients(live, ev) == SelectSeq(live, LAMBDA r : Matches(r, ev))

PlanOf(W, objs, obj, r, ctx) == OpPlan(W, objs, obj, r.doc, r.op, r.supplied, ctx, r.st)
=============================================================================
