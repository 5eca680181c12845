------------------------------ MODULE ValueOps ------------------------------
(* Response values as a machine: a pool of variables, each holding a value,  *)
(* and the operations of the library's value type on them.                   *)
(*                                                                          *)
(* A value is [t, v, l, k, j] as in Values; j = "1" when it is a string from *)
(* JSON (which may stand for an enum value).  t = "Gone" is a variable whose *)
(* content was moved elsewhere: it may only be assigned.                     *)
EXTENDS Values

V(t, v, l, k, j) == [t |-> t, v |-> v, l |-> l, k |-> k, j |-> j]
Gone == V("Gone", "", <<>>, <<>>, "0")
NullV == V("Null", "", <<>>, <<>>, "0")
Text(s, j) == V("String", s, <<>>, <<>>, j)
Fresh(ty) == CASE ty = "Boolean" -> V("Boolean", "false", <<>>, <<>>, "0")
               [] ty \in {"Int", "Float"} -> V(ty, "0", <<>>, <<>>, "0")
               [] OTHER -> V(ty, "", <<>>, <<>>, IF ty = "Enum" THEN "1" ELSE "0")
Ctor(ty, v) == CASE ty \in {"String", "CString"} -> Text(v, "0")
                 [] ty = "ID" -> Text(ToBase64(Bytes(v)), "0")
                 [] OTHER -> V(ty, v, <<>>, <<>>, "0")

(* What an operation does: the pool after it, whether it fails, its result.  *)
(* A failing operation changes nothing.                                      *)
Ok(p, res) == [p |-> p, r |-> "ok", res |-> res]
Err(p) == [p |-> p, r |-> "err", res |-> ""]
Put(p, a, x) == [p EXCEPT ![a] = x]

Readable(x, ty) ==
  CASE ty = "String" -> x.t \in {"String", "Enum"}
    [] ty = "Float" -> x.t \in {"Float", "Int"}
    [] ty = "ID" -> x.t = "String" /\ IsBase64(x.v)
    [] ty = "Scalar" -> x.t = "Scalar" /\ x.l # <<>>
    [] ty = "begin" -> x.t = "Map"
    [] OTHER -> x.t = ty
Reading(x, ty) ==
  CASE ty \in {"Map", "List", "begin"} -> ToString(Len(x.l))
    [] ty = "ID" -> HexOf(FromBase64(x.v), 1)
    [] ty = "Scalar" -> IF x.l[1].t = "Null" THEN "null" ELSE "some"
    [] OTHER -> x.v
Writable(x, ty) ==
  CASE ty = "String" -> x.t \in {"String", "Enum"}
    [] ty = "Int" -> x.t \in {"Int", "Float"}
    [] ty = "ID" -> x.t = "String"
    [] OTHER -> x.t = ty
Written(x, ty, v, y) ==
  CASE ty = "Scalar" -> [x EXCEPT !.l = <<y>>]
    [] ty = "ID" -> [x EXCEPT !.v = ToBase64(Bytes(v))]
    [] OTHER -> [x EXCEPT !.v = v]
Releasable(x, ty) == ty \in {"Map", "List", "String", "ID", "Scalar"} /\ Readable(x, ty)
(* the content, and what is left: an empty value of the same type            *)
Released(x, ty) ==
  CASE ty = "String" -> Text(x.v, "0")
    [] ty = "ID" -> Text(HexOf(FromBase64(x.v), 1), "0")
    [] ty = "Scalar" -> x.l[1]
    [] OTHER -> x
Emptied(x, ty) == CASE ty = "ID" -> Gone
                    [] ty = "String" /\ x.t = "String" -> [x EXCEPT !.v = "", !.j = "0"]
                    [] OTHER -> [x EXCEPT !.v = "", !.l = <<>>, !.k = <<>>]

(* o: [op, s, t, ty, v, i]; s and t are variables, numbered from 1           *)
Apply(p, o) ==
  LET x == p[o.s]
      y == p[o.t]
      add == [x EXCEPT !.k = Append(@, o.v), !.l = Append(@, y)]
      app == [x EXCEPT !.l = Append(@, y)]
      Member1(n) == IndexOf(x.k, n)
  IN CASE o.op = "new" -> Ok(Put(p, o.s, Fresh(o.ty)), "")
       [] o.op = "ctor" -> Ok(Put(p, o.s, Ctor(o.ty, o.v)), "")
       [] o.op = "copy" -> Ok(Put(p, o.s, y), "")
       [] o.op \in {"move", "movec"} -> Ok(IF o.s = o.t THEN p ELSE Put(Put(p, o.s, y), o.t, Gone), "")
       [] o.op = "set" -> IF Writable(x, o.ty) THEN Ok(Put(p, o.s, Written(x, o.ty, o.v, y)), "") ELSE Err(p)
       [] o.op = "put" -> IF x.t # "Map" THEN Err(p) ELSE IF HasMember(x, o.v) THEN Ok(p, "0") ELSE Ok(Put(p, o.s, add), "1")
       [] o.op = "putm" -> IF x.t # "Map" THEN Err(p)
                           ELSE IF HasMember(x, o.v) THEN Ok(Put(p, o.t, Gone), "0")       \* whether a refused value survives is left open
                           ELSE Ok(Put(Put(p, o.s, add), o.t, Gone), "1")
       [] o.op = "app" -> IF x.t # "List" THEN Err(p) ELSE Ok(Put(p, o.s, app), "")
       [] o.op = "appm" -> IF x.t # "List" THEN Err(p) ELSE Ok(Put(Put(p, o.s, app), o.t, Gone), "")
       [] o.op = "find" -> IF x.t # "Map" THEN Err(p) ELSE Ok(p, IF HasMember(x, o.v) THEN ToString(Member1(o.v)) ELSE "none")
       [] o.op = "at" -> IF x.t # "Map" \/ ~HasMember(x, o.v) THEN Err(p) ELSE Ok(p, o.v)
       [] o.op = "idx" -> IF x.t # "List" \/ o.i >= Len(x.l) THEN Err(p) ELSE Ok(p, ToString(o.i + 1))
       [] o.op = "sub" -> IF x.t \notin {"Map", "List", "Scalar"} \/ o.i >= Len(x.l) THEN Err(p) ELSE Ok(Put(p, o.t, x.l[o.i + 1]), "")
       [] o.op = "get" -> IF Readable(x, o.ty) THEN Ok(p, Reading(x, o.ty)) ELSE Err(p)
       [] o.op = "release" -> IF Releasable(x, o.ty) THEN Ok(Put(Put(p, o.s, Emptied(x, o.ty)), o.t, Released(x, o.ty)), "")
                              ELSE IF o.ty = "ID" /\ x.t = "String" THEN [p |-> Put(p, o.s, Gone), r |-> "err", res |-> ""]  \* text that is no ID: what is left is open
                              ELSE Err(p)
       [] o.op = "size" -> IF x.t \in {"Map", "List"} THEN Ok(p, ToString(Len(x.l))) ELSE Err(p)
       [] o.op = "reserve" -> IF x.t \in {"Map", "List"} THEN Ok(p, "") ELSE Err(p)
       [] o.op = "json" -> Ok(IF x.t = "String" THEN Put(p, o.s, [x EXCEPT !.j = "1"]) ELSE p, "")

(* Operations read variables only while they hold something.                 *)
Reads(o) == CASE o.op \in {"new", "ctor"} -> {}
              [] o.op \in {"copy", "move", "movec"} -> {o.t}
              [] o.op \in {"put", "putm", "app", "appm"} -> {o.s, o.t}
              [] o.op = "set" -> IF o.ty = "Scalar" THEN {o.s, o.t} ELSE {o.s}
              [] OTHER -> {o.s}
(* moving a value into itself means nothing                                  *)
Enabled(p, o) == /\ \A a \in Reads(o) : p[a].t # "Gone"
                 /\ o.op \in {"putm", "appm", "release", "sub"} => o.s # o.t

(* ------------------------------------------------------------ properties - *)
RECURSIVE WellFormed(_)
WellFormed(x) == /\ x.t = "Map" => Len(x.k) = Len(x.l) /\ Cardinality(Elems(x.k)) = Len(x.k)
                 /\ x.t # "Map" => x.k = <<>>
                 /\ x.t \notin {"Map", "List", "Scalar"} => x.l = <<>>
                 /\ x.t = "Scalar" => Len(x.l) <= 1
                 /\ \A a \in 1..Len(x.l) : x.l[a].t # "Gone" /\ WellFormed(x.l[a])
(* q follows from p by o on x: a member once there stays, in place           *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Keeps(p, o, q) ==
  /\ q.r = "err" => q.p = p \/ (o.op = "release" /\ o.ty = "ID")
  /\ \A a \in 1..Len(p) : a \notin {o.s, o.t} => q.p[a] = p[a]
  /\ o.op \in {"put", "putm", "app", "appm"} /\ q.r = "ok" => Prefix(p[o.s].k, q.p[o.s].k) /\ Prefix(p[o.s].l, q.p[o.s].l)
  /\ o.op \in {"set", "json", "put", "app", "reserve"} => q.p[o.s].t = p[o.s].t
=============================================================================
