------------------------------- MODULE Collect -------------------------------
(* Literals and variables, and collecting the fields of a selection set      *)
(* (GraphQL June 2018, sections 6.1 and 6.3.2).                              *)
EXTENDS Values

(* ---------------------------------------------------- literals, variables *)
RECURSIVE Eval(_, _)
Eval(v, vars) ==
  IF v.t = "Var" THEN vars[v.v]
  ELSE IF v.l = <<>> THEN Val(v.t, v.v, <<>>, v.k)
  ELSE Val(v.t, v.v, [i \in 1..Len(v.l) |-> Eval(v.l[i], vars)], v.k)

(* The variables an operation sees: those it declares, and no others.        *)
OpVars(op, supplied) ==
  [n \in {op.vars[i].n : i \in 1..Len(op.vars)} |->
     LET d == CHOOSE i \in 1..Len(op.vars) : op.vars[i].n = n
     IN IF HasMember(supplied, n) THEN Member(supplied, n)
        ELSE IF op.vars[d].has = "1" THEN Eval(op.vars[d].def, << >>)
        ELSE Null]

ArgMap(args, vars) == MapV([i \in 1..Len(args) |-> args[i].n], [i \in 1..Len(args) |-> Eval(args[i].v, vars)])
DirMap(dirs, vars) == MapV([i \in 1..Len(dirs) |-> dirs[i].n], [i \in 1..Len(dirs) |-> ArgMap(dirs[i].args, vars)])
(* The inner directives, and the outer ones they do not override.            *)
MergeDirs(inner, outer) ==
  LET keep == SelectSeq([i \in 1..Len(outer.k) |-> i], LAMBDA i : ~HasMember(inner, outer.k[i]))
  IN MapV(inner.k \o [i \in 1..Len(keep) |-> outer.k[keep[i]]], inner.l \o [i \in 1..Len(keep) |-> outer.l[keep[i]]])

Truth(d, vars) == \E i \in 1..Len(d.args) : d.args[i].n = "if" /\ Eval(d.args[i].v, vars).v = "true"
Excluded(dirs, vars) ==
  \E i \in 1..Len(dirs) : \/ dirs[i].n = "skip" /\ Truth(dirs[i], vars)
                          \/ dirs[i].n = "include" /\ ~Truth(dirs[i], vars)

(* ---------------------------------------------------- collecting fields -- *)
RespName(s) == IF s.a = "" THEN s.n ELSE s.a
FragOf(frags, n) == frags[CHOOSE i \in 1..Len(frags) : frags[i].n = n]
NoDirs == [fdd |-> EmptyMap, fsd |-> EmptyMap, ifd |-> EmptyMap]

RECURSIVE Coll(_, _, _, _, _)
(* E = [names, vars, frags]; ctx = the directives of the enclosing fragments *)
Coll(E, sels, i, ctx, acc) ==
  IF i > Len(sels) THEN acc
  ELSE LET s == sels[i]
           next ==
             IF Excluded(s.dirs, E.vars) THEN acc
             ELSE CASE s.k = "field" ->
                         IF \E j \in 1..Len(acc) : acc[j].rn = RespName(s) THEN acc
                         ELSE Append(acc, [rn |-> RespName(s), s |-> s, ctx |-> ctx])
                    [] s.k = "spread" ->
                         LET f == FragOf(E.frags, s.n)
                         IN IF f.on \notin E.names THEN acc
                            ELSE Coll(E, f.sel, 1,
                                      [ctx EXCEPT !.fdd = MergeDirs(DirMap(f.dirs, E.vars), @),
                                                  !.fsd = MergeDirs(DirMap(s.dirs, E.vars), @)], acc)
                    [] OTHER ->
                         IF s.on # "" /\ s.on \notin E.names THEN acc
                         ELSE Coll(E, s.sel, 1, [ctx EXCEPT !.ifd = MergeDirs(DirMap(s.dirs, E.vars), @)], acc)
       IN Coll(E, sels, i + 1, ctx, next)
=============================================================================
