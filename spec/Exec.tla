-------------------------------- MODULE Exec --------------------------------
(* Execution of one operation: which resolvers are called, with what, in     *)
(* which order, and what the response is.                                    *)
(*                                                                          *)
(* The reference semantics (GraphQL June 2018, section 6) computes a plan    *)
(* from the schema, the object graph, the document and the variables: the    *)
(* selection sets that are executed, the resolver calls of each in order,    *)
(* the response data and the errors.  The machine below says in which order  *)
(* the events of a plan may happen; it is used by ExecTrace (executions      *)
(* recorded from the library) and by ExecMC (all schedules of small plans).  *)
EXTENDS Introspect

(* ------------------------------------------------- argument conversion --- *)
Bad == [ok |-> "0", v |-> Null]
Good(v) == [ok |-> "1", v |-> v]
(* w: the modifiers that remain, outermost first; base: the scalar           *)
RECURSIVE Conv(_, _, _)
Conv(base, w, v) ==
  LET nn == w # <<>> /\ w[1] = "N"
      r == IF nn THEN Tail(w) ELSE w
  IN IF ~nn /\ v.t = "Null" THEN Good(Null)
     ELSE IF r # <<>>
          THEN IF v.t # "List" THEN Bad
               ELSE LET es == [i \in 1..Len(v.l) |-> Conv(base, Tail(r), v.l[i])]
                    IN IF \A i \in 1..Len(es) : es[i].ok = "1" THEN Good(ListV([i \in 1..Len(es) |-> es[i].v])) ELSE Bad
     ELSE CASE base = "Int" -> IF v.t = "Int" THEN Good(v) ELSE Bad
            [] base = "Float" -> IF v.t \in {"Int", "Float"} THEN Good(Val("Float", v.v, <<>>, <<>>)) ELSE Bad
            [] base = "String" -> IF Kind(v) = "String" THEN Good(Str(v.v)) ELSE Bad
            [] base = "Boolean" -> IF v.t = "Boolean" THEN Good(v) ELSE Bad
            [] base = "ID" -> IF Kind(v) = "String" /\ IsBase64(v.v) THEN Good(Val("ID", HexOf(FromBase64(v.v), 1), <<>>, <<>>)) ELSE Bad
            [] OTHER -> Good(v)
(* a custom scalar or input object without a nullable modifier takes null as its value, but must be there *)
ConvArg(a, raw) ==
  IF HasMember(raw, a.name) THEN Conv(a.base, a.w, Member(raw, a.name))
  ELSE IF a.w # <<>> /\ a.w[1] = "N" THEN Bad ELSE Good(Null)

(* Arguments as a generated service takes them: enumerations and input       *)
(* objects are checked, and defaults of the schema take the place of what is *)
(* missing.  ok = "?": not judged - a value which is not of its type where   *)
(* there is a default (see known-findings.txt).                              *)
RECURSIVE GConv(_, _, _, _), GArg(_, _, _)
GConv(W, base, w, v) ==
  LET nn == w # <<>> /\ w[1] = "N"
      r == IF nn THEN Tail(w) ELSE w
      All(es, good) == IF \E i \in 1..Len(es) : es[i].ok = "0" THEN Bad
                       ELSE IF \E i \in 1..Len(es) : es[i].ok = "?" THEN [ok |-> "?", v |-> Null]
                       ELSE Good(good)
  IN IF ~nn /\ v.t = "Null" THEN Good(Null)
     ELSE IF r # <<>>
          THEN IF v.t # "List" THEN Bad
               ELSE LET es == [i \in 1..Len(v.l) |-> GConv(W, base, Tail(r), v.l[i])] IN All(es, ListV([i \in 1..Len(es) |-> es[i].v]))
     ELSE IF base \in DOMAIN W.enums
          THEN IF v.t \in {"Enum", "JString"} /\ v.v \in Elems(W.enums[base]) THEN Good(Val("Enum", v.v, <<>>, <<>>)) ELSE Bad
     ELSE IF base \in DOMAIN W.inputs
          THEN IF v.t # "Map" THEN IF \A i \in 1..Len(W.inputs[base]) : W.inputs[base][i].has = "1" THEN [ok |-> "?", v |-> Null] ELSE Bad
               ELSE LET fs == W.inputs[base]
                        es == [i \in 1..Len(fs) |-> GArg(W, fs[i], v)]
                    IN All(es, MapV([i \in 1..Len(fs) |-> fs[i].name], [i \in 1..Len(es) |-> es[i].v]))
     ELSE Conv(base, IF nn THEN <<"N">> ELSE <<>>, v)
GArg(W, a, raw) ==
  IF HasMember(raw, a.name)
  THEN LET g == GConv(W, a.base, a.w, Member(raw, a.name)) IN IF g.ok = "0" /\ a.has = "1" THEN [ok |-> "?", v |-> Null] ELSE g
  ELSE IF a.has = "1" THEN GConv(W, a.base, a.w, a.def)
  ELSE IF a.w # <<>> /\ a.w[1] = "N" THEN Bad ELSE Good(Null)
AnyArg(W, a, raw) == IF W.gen = "1" THEN GArg(W, a, raw) ELSE ConvArg(a, raw)

(* -------------------------------------------------------------- errors --- *)
(* ms: the acceptable messages (none: any), path: sequence of [t, v]         *)
Err(ms, line, col, path) == [ms |-> ms, line |-> line, col |-> col, path |-> path]
Unknown(rn, m) == {"Field error name: " \o rn \o " unknown error: " \o m, "Field name: " \o rn \o " unknown error: " \o m}
RaisedErrs(e, rn, s, path) ==
  CASE e.k = "runtime" -> <<Err(Unknown(rn, e.m), s.line, s.col, path)>>
    [] e.k = "schema" -> <<Err({e.m}, s.line, s.col, path)>>
    [] e.k = "schema2" -> <<Err({e.m}, s.line, s.col, path), Err({e.m \o " again"}, s.line, s.col, path)>>
    [] OTHER -> <<Err({e.m}, "77", "7", <<[t |-> "String", v |-> "elsewhere"]>>)>>

NameSeg(n) == [t |-> "String", v |-> n]
IdxSeg(i) == [t |-> "Int", v |-> ToString(i)]
RECURSIVE PathText(_, _)
PathText(p, i) == IF i > Len(p) THEN "" ELSE (IF i > 1 THEN "." ELSE "") \o p[i].v \o PathText(p, i + 1)

(* --------------------------------------------------------------- plans --- *)
(* The result of executing something: data, errors, selection sets.          *)
Out(d, e, s) == [d |-> d, e |-> e, s |-> s]

RECURSIVE SetPlan(_, _, _, _, _, _, _), Complete(_, _, _, _, _, _, _)
(* G = [W, objs, vars, frags, od, ctx, st]                                   *)
SetPlan(G, id, sels, path, owner, root, opt) ==
  LET o == G.objs[id]
      names == Elems(G.W.types[o.type].names)
      cs == Coll([names |-> names, vars |-> G.vars, frags |-> G.frags], sels, 1, NoDirs, <<>>)
      fb == o.begin # <<>>
      fe == ~fb /\ o.end # <<>>
      sub == opt \/ fe
      Field(c) ==
        LET s == c.s
            p == Append(path, NameSeg(c.rn))
            rt == IF path = <<>> THEN c.rn ELSE root
        IN IF s.n = "__typename"
           THEN [call |-> FALSE, o |-> Out(Str(o.type), <<>>, <<>>), rec |-> <<>>]
           ELSE IF s.n \in {"__schema", "__type"} /\ G.W.intro # "1"
           THEN [call |-> FALSE, o |-> Out(Null, <<Err({}, s.line, s.col, p)>>, <<>>), rec |-> <<>>]
           ELSE IF s.n = "__schema"
           THEN [call |-> FALSE, o |-> Out(SchemaV(G, s.sel), <<>>, <<>>), rec |-> <<>>]
           ELSE IF s.n = "__type"
           THEN LET n == Member(ArgMap(s.args, G.vars), "name")
                IN [call |-> FALSE, rec |-> <<>>,
                    o |-> IF Kind(n) = "String" /\ KnownType(G, n.v) THEN Out(NamedV(G, n.v, s.sel), <<>>, <<>>)
                          ELSE Out(Null, <<Err({}, s.line, s.col, p)>>, <<>>)]
           ELSE LET f == G.W.types[o.type].fields[s.n]
                    raw == ArgMap(s.args, G.vars)
                    conv == [i \in 1..Len(f.args) |-> AnyArg(G.W, f.args[i], raw)]
                    b == o.fields[s.n]
                    rec == [p |-> PathText(p, 1), o |-> id, f |-> s.n, rn |-> c.rn, line |-> s.line, col |-> s.col, raw |-> raw,
                            args |-> [i \in 1..Len(f.args) |-> [n |-> f.args[i].name, ok |-> conv[i].ok, v |-> conv[i].v]],
                            fd |-> DirMap(s.dirs, G.vars), fdd |-> c.ctx.fdd, fsd |-> c.ctx.fsd, ifd |-> c.ctx.ifd, root |-> rt]
                    failed == \E i \in 1..Len(conv) : conv[i].ok = "0"
                    out == IF failed
                           THEN Out(Null, <<Err({}, s.line, s.col, p)>>, <<>>)
                           ELSE IF b.err # <<>> THEN Out(Null, RaisedErrs(b.err[1], c.rn, s, p), <<>>)
                           ELSE Complete(G, f, f.w, b.val, c, p, [root |-> rt, owner |-> PathText(p, 1), opt |-> sub])
                IN [call |-> TRUE, o |-> out, rec |-> IF f.stub = "1" \/ (failed /\ G.W.gen = "1") THEN <<>> ELSE <<rec>>]
      fs == IF fb THEN <<>> ELSE [i \in 1..Len(cs) |-> Field(cs[i])]
      calls == Concat([i \in 1..Len(fs) |-> fs[i].rec], 1)
      self == [p |-> PathText(path, 1), o |-> id, calls |-> calls, opt |-> opt, fb |-> fb, owner |-> owner, root |-> root]
  IN Out(MapV([i \in 1..Len(fs) |-> cs[i].rn], [i \in 1..Len(fs) |-> fs[i].o.d]),
         Concat([i \in 1..Len(fs) |-> fs[i].o.e], 1),
         <<self>> \o Concat([i \in 1..Len(fs) |-> fs[i].o.s], 1))

Complete(G, f, w, v, c, path, x) ==
  LET r == IF w # <<>> /\ w[1] = "N" THEN Tail(w) ELSE w
  IN IF v.t = "Null" THEN Out(Null, <<>>, <<>>)
     ELSE IF r # <<>>
          THEN LET es == [i \in 1..Len(v.l) |-> Complete(G, f, Tail(r), v.l[i], c, Append(path, IdxSeg(i - 1)), x)]
               IN Out(ListV([i \in 1..Len(es) |-> es[i].d]), Concat([i \in 1..Len(es) |-> es[i].e], 1), Concat([i \in 1..Len(es) |-> es[i].s], 1))
     ELSE IF v.t = "Obj"
          THEN LET p == SetPlan(G, v.v, c.s.sel, path, x.owner, x.root, x.opt)
                   o == G.objs[v.v]
                   hook == IF o.begin # <<>> THEN o.begin ELSE o.end
               IN IF hook # <<>> THEN Out(Null, RaisedErrs(hook[1], c.rn, c.s, path), p.s) ELSE p
     ELSE IF v.t = "ID" THEN Out(Str(ToBase64(Bytes(v.v))), <<>>, <<>>)
     ELSE Out(v, <<>>, <<>>)

(* ------------------------------------------------ documents and requests - *)
OpIndex(doc, name) ==
  IF name = "" THEN (IF Len(doc.ops) > 0 THEN 1 ELSE 0)
  ELSE IF \E i \in 1..Len(doc.ops) : doc.ops[i].name = name
       THEN CHOOSE i \in 1..Len(doc.ops) : doc.ops[i].name = name /\ \A j \in 1..(i - 1) : doc.ops[j].name # name
       ELSE 0

OpPlan(W, objs, root, doc, op, supplied, ctx, st) ==
  LET vars == OpVars(op, supplied)
      od == DirMap(op.dirs, vars)
      G == [W |-> W, objs |-> objs, vars |-> vars, frags |-> doc.frags]
      p == SetPlan(G, root, op.sel, <<>>, "", "", FALSE)
  IN [d |-> p.d, e |-> p.e, s |-> p.s, od |-> od, ctx |-> ctx, st |-> st]

(* An error as it appears in the response.  Whatever is not there, or not of its type, is "?". *)
Part(m, k, t) == IF m.t = "Map" /\ HasMember(m, k) /\ Kind(Member(m, k)) = t THEN Member(m, k).v ELSE "?"
ErrFields(m) ==
  LET has(k) == m.t = "Map" /\ HasMember(m, k)
      ls == IF has("locations") THEN Member(m, "locations").l ELSE <<>>
  IN [m |-> Part(m, "message", "String"),
      line |-> IF ~has("locations") THEN "0" ELSE IF Len(ls) = 1 THEN Part(ls[1], "line", "Int") ELSE "?",
      col |-> IF ~has("locations") THEN "0" ELSE IF Len(ls) = 1 THEN Part(ls[1], "column", "Int") ELSE "?",
      path |-> IF has("path") THEN [i \in 1..Len(Member(m, "path").l) |-> [t |-> Kind(Member(m, "path").l[i]), v |-> Member(m, "path").l[i].v]]
               ELSE <<>>,
      other |-> m.t # "Map" \/ ~(Elems(m.k) \subseteq {"message", "locations", "path"})]
ErrMatch(x, a) == /\ (x.ms = {} \/ a.m \in x.ms) /\ x.line = a.line /\ x.col = a.col /\ x.path = a.path /\ ~a.other
RECURSIVE ErrBag(_, _)
ErrBag(xs, as) ==
  IF xs = <<>> THEN as = <<>>
  ELSE \E i \in 1..Len(as) : ErrMatch(xs[1], as[i]) /\ ErrBag(Tail(xs), SubSeq(as, 1, i - 1) \o SubSeq(as, i + 1, Len(as)))

ResponseOk(plan, doc) ==
  /\ doc.t = "Map"
  /\ HasMember(doc, "data") /\ SameB(plan.d, Member(doc, "data"))
  /\ (plan.e # <<>>) <=> HasMember(doc, "errors")
  /\ doc.k = IF plan.e # <<>> THEN <<"data", "errors">> ELSE <<"data">>
ErrorsOk(plan, doc) ==
  plan.e # <<>> /\ HasMember(doc, "errors")
    => LET es == Member(doc, "errors").l IN Len(es) = Len(plan.e) /\ ErrBag(plan.e, [i \in 1..Len(es) |-> ErrFields(es[i])])
IsErrorDoc(doc) ==
  /\ doc.t = "Map" /\ doc.k = <<"data", "errors">>
  /\ doc.l[1].t = "Null" /\ doc.l[2].t = "List" /\ doc.l[2].l # <<>>

(* ---------------------------------------------------- the event machine -- *)
(* progress: for each selection set of the plan what has happened in it.     *)
Fresh(plan) == [begun |-> [i \in 1..Len(plan.s) |-> FALSE], ncalls |-> [i \in 1..Len(plan.s) |-> 0],
                ended |-> [i \in 1..Len(plan.s) |-> FALSE], called |-> {}, returned |-> {}, late |-> 0]

SetAt(plan, p) == IF \E i \in 1..Len(plan.s) : plan.s[i].p = p THEN CHOOSE i \in 1..Len(plan.s) : plan.s[i].p = p ELSE 0
Parent(p) == IF \E i \in 1..Len(p) : Char(p, i) = "."
             THEN SubSeq(p, 1, (CHOOSE i \in 1..Len(p) : Char(p, i) = "." /\ \A j \in (i + 1)..Len(p) : Char(p, j) # ".") - 1)
             ELSE ""
(* A set owes nothing any more.                                              *)
SetDone(plan, st, i) == IF plan.s[i].fb THEN st.begun[i] ELSE st.ended[i]
(* Serial execution: while root field r is executed, nothing of a later one has started, everything of the earlier ones is over. *)
RootPos(plan, r) == LET cs == plan.s[1].calls
                    IN IF \E i \in 1..Len(cs) : cs[i].rn = r THEN CHOOSE i \in 1..Len(cs) : cs[i].rn = r ELSE 0
SerialOk(plan, st, r) == plan.ctx = "Mutation" => st.ncalls[1] <= RootPos(plan, r)
EarlierDone(plan, st, pos) ==
  plan.ctx = "Mutation" =>
    \A i \in 2..Len(plan.s) : (~plan.s[i].opt /\ RootPos(plan, plan.s[i].root) < pos) => SetDone(plan, st, i)

CanBegin(plan, st, i) ==
  /\ i # 0 /\ ~st.begun[i]
  /\ plan.s[i].p = "" \/ plan.s[i].owner \in st.called
  /\ plan.s[i].p = "" \/ SerialOk(plan, st, plan.s[i].root)
DoBegin(st, i) == [st EXCEPT !.begun[i] = TRUE]
NextCall(plan, st, i) == plan.s[i].calls[st.ncalls[i] + 1]
CanCall(plan, st, i) ==
  /\ i # 0 /\ st.begun[i] /\ ~plan.s[i].fb /\ ~st.ended[i] /\ st.ncalls[i] < Len(plan.s[i].calls)
  /\ i = 1 => EarlierDone(plan, st, st.ncalls[1] + 1)
  /\ i # 1 => SerialOk(plan, st, plan.s[i].root)
DoCall(plan, st, i) == [st EXCEPT !.ncalls[i] = @ + 1, !.called = @ \cup {NextCall(plan, st, i).p}]
CanEnd(plan, st, i) ==
  /\ i # 0 /\ st.begun[i] /\ ~st.ended[i] /\ ~plan.s[i].fb /\ st.ncalls[i] = Len(plan.s[i].calls)
  /\ i # 1 => SerialOk(plan, st, plan.s[i].root)
DoEnd(st, i) == [st EXCEPT !.ended[i] = TRUE]
AllDone(plan, st) == \A i \in 1..Len(plan.s) : plan.s[i].opt \/ SetDone(plan, st, i)
=============================================================================
