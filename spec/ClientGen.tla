----------------------------- MODULE ClientGen ------------------------------
(* What a generated client is, given a schema and a request: the shape of    *)
(* its response and variables, the document of variables it sends, and the   *)
(* typed response it makes of a service's answer.                            *)
(*                                                                          *)
(* W.kind maps a type name to its kind, W.fields to the fields of a          *)
(* composite type (name -> [n, m]), W.enums to the names of an enumeration,  *)
(* W.inputs to the fields of an input type ([name, n, m]).  D is a document  *)
(* with fragments D.frags.                                                   *)
EXTENDS Client

Composite(W, n) == W.kind[n] \in {"OBJECT", "INTERFACE", "UNION"}
Sort(W, n) == CASE W.kind[n] = "ENUM" -> "enum"
                [] W.kind[n] = "SCALAR" -> IF n \in {"Int", "Float", "String", "Boolean", "ID"} THEN n ELSE "Value"
                [] OTHER -> "struct"

(* ----------------------------------------------------------- the shape --- *)
Alias(s) == IF s.a = "" THEN s.n ELSE s.a
FragOf(D, n) == D.frags[CHOOSE j \in 1..Len(D.frags) : D.frags[j].n = n]
FieldType(W, T, n) == CASE n = "__typename" -> [n |-> "String", m |-> ""]
                        [] n = "__schema" -> [n |-> "__Schema", m |-> ""]
                        [] n = "__type" -> [n |-> "__Type", m |-> "Q"]
                        [] OTHER -> W.fields[T][n]
(* The fields of a selection set, those of its fragments in their place,     *)
(* whatever type they apply to: part is [t, sel].                            *)
RECURSIVE Flat(_, _, _, _, _), FlatAll(_, _, _, _)
Flat(W, D, T, sels, j) ==
  IF j > Len(sels) THEN <<>>
  ELSE LET s == sels[j]
           here == CASE s.k = "field" -> LET t == FieldType(W, T, s.n)
                                         IN <<[rn |-> Alias(s), n |-> t.n, m |-> t.m, parts |-> <<[t |-> t.n, sel |-> s.sel]>>]>>
                     [] s.k = "spread" -> LET f == FragOf(D, s.n) IN Flat(W, D, f.on, f.sel, 1)
                     [] OTHER -> Flat(W, D, IF s.on = "" THEN T ELSE s.on, s.sel, 1)
       IN here \o Flat(W, D, T, sels, j + 1)
FlatAll(W, D, parts, j) == IF j > Len(parts) THEN <<>> ELSE Flat(W, D, parts[j].t, parts[j].sel, 1) \o FlatAll(W, D, parts, j + 1)
(* Fields with the same response name are one field, with the selections of all of them. *)
RECURSIVE Merge(_, _, _)
Merge(fs, j, acc) ==
  IF j > Len(fs) THEN acc
  ELSE LET k == {x \in 1..Len(acc) : acc[x].rn = fs[j].rn}
       IN IF k = {} THEN Merge(fs, j + 1, Append(acc, fs[j]))
          ELSE LET x == CHOOSE y \in k : TRUE
               IN Merge(fs, j + 1, [acc EXCEPT ![x].parts = @ \o fs[j].parts])
RECURSIVE Shape(_, _, _)
Shape(W, D, parts) ==
  LET fs == TLCEval(Merge(FlatAll(W, D, parts, 1), 1, <<>>))
  IN [j \in 1..Len(fs) |-> [rn |-> fs[j].rn, n |-> fs[j].n, m |-> fs[j].m,
                            sub |-> IF Composite(W, fs[j].n) THEN Shape(W, D, fs[j].parts) ELSE <<>>]]

(* The C++ types of the members, by path.                                    *)
RECURSIVE OutTypes(_, _, _, _), InTypes(_, _, _, _)
OutTypes(W, fs, path, j) ==
  IF j > Len(fs) THEN <<>>
  ELSE <<<<path \o fs[j].rn, fs[j].m \o ":" \o Sort(W, fs[j].n)>>>>
       \o OutTypes(W, fs[j].sub, path \o fs[j].rn \o ".", 1) \o OutTypes(W, fs, path, j + 1)
InTypes(W, fs, path, j) ==
  IF j > Len(fs) THEN <<>>
  ELSE <<<<path \o fs[j].name, fs[j].m \o ":" \o Sort(W, fs[j].n)>>>>
       \o (IF W.kind[fs[j].n] = "INPUT" THEN InTypes(W, W.inputs[fs[j].n], path \o fs[j].name \o ".", 1) ELSE <<>>)
       \o InTypes(W, fs, path, j + 1)

(* ----------------------------------------------------------- variables --- *)
(* A typed input object has a member for every field, and so has its wire form. *)
RECURSIVE WireOf(_, _, _, _)
WireOf(W, v, n, m) ==
  IF m = "" THEN
    CASE W.kind[n] = "ENUM" -> Val("Enum", v.v, <<>>, <<>>)
      [] W.kind[n] = "INPUT" -> LET fs == W.inputs[n]
                                IN MapV([j \in 1..Len(fs) |-> fs[j].name], [j \in 1..Len(fs) |-> WireOf(W, Member(v, fs[j].name), fs[j].n, fs[j].m)])
      [] OTHER -> Wire(v, n, "")
  ELSE IF Char(m, 1) = "Q" THEN IF v.t = "Null" THEN Null ELSE WireOf(W, v, n, Rest(m))
  ELSE ListV([j \in 1..Len(v.l) |-> WireOf(W, v.l[j], n, Rest(m))])
(* vars: the variable definitions [name, n, m] of the operation              *)
Document(W, vars, v) == MapV([j \in 1..Len(vars) |-> vars[j].name], [j \in 1..Len(vars) |-> WireOf(W, Member(v, vars[j].name), vars[j].n, vars[j].m)])

(* ------------------------------------------------------------ responses -- *)
(* Anything: a value the client may choose, where the response lacks what    *)
(* the schema promises.                                                      *)
Anything == Val("Any", "", <<>>, <<>>)
RECURSIVE Parsed(_, _, _, _, _), ParsedFields(_, _, _)
Parsed(W, w, n, m, sub) ==
  IF m = "" THEN
    CASE W.kind[n] = "ENUM" -> IF w.t \in {"Enum", "JString"} /\ w.v \in Elems(W.enums[n]) THEN Yes(Val("Enum", w.v, <<>>, <<>>)) ELSE No
      [] Composite(W, n) -> IF w.t = "Map" THEN ParsedFields(W, w, sub) ELSE Yes(Anything)
      [] OTHER -> Typed(w, n, "")
  ELSE IF Char(m, 1) = "Q" THEN IF w.t = "Null" THEN Yes(Null) ELSE Parsed(W, w, n, Rest(m), sub)
  ELSE IF w.t # "List" THEN Yes(Anything)
  ELSE LET es == TLCEval([j \in 1..Len(w.l) |-> Parsed(W, w.l[j], n, Rest(m), sub)])
       IN IF \E j \in 1..Len(es) : es[j].ok = "0" THEN No ELSE Yes(ListV([j \in 1..Len(es) |-> es[j].v]))
(* Members of the response which the request does not have are ignored.      *)
ParsedFields(W, w, fs) ==
  LET one(f) == IF HasMember(w, f.rn) THEN Parsed(W, Member(w, f.rn), f.n, f.m, f.sub)
                ELSE IF f.m # "" /\ Char(f.m, 1) = "Q" THEN Yes(Null) ELSE Yes(Anything)
      es == TLCEval([j \in 1..Len(fs) |-> one(fs[j])])
  IN IF \E j \in 1..Len(es) : es[j].ok = "0" THEN No ELSE Yes(MapV([j \in 1..Len(fs) |-> fs[j].rn], [j \in 1..Len(fs) |-> es[j].v]))
RECURSIVE Matches(_, _)
Matches(e, g) == \/ e.t = "Any"
                 \/ IF e.t \in {"List", "Map"} THEN /\ g.t = e.t /\ g.k = e.k /\ Len(g.l) = Len(e.l)
                                                    /\ \A j \in 1..Len(e.l) : Matches(e.l[j], g.l[j])
                    ELSE Same(e, g)
=============================================================================
