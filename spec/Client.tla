------------------------------- MODULE Client -------------------------------
(* The client's view of values: what a typed value looks like on the wire,   *)
(* and what typed value a response has; how a service response splits up.    *)
(*                                                                          *)
(* Wrappers are a text, outermost first: Q nullable, L list.  Typed values   *)
(* are [t, v, l, k] with ID as bytes in hexadecimal and Null for an absent   *)
(* value; wire values are response values.                                   *)
EXTENDS Values
No == [ok |-> "0", v |-> Null]
Yes(v) == [ok |-> "1", v |-> v]
Rest(m) == SubSeq(m, 2, Len(m))

RECURSIVE Wire(_, _, _), Typed(_, _, _)
Wire(v, type, m) ==
  IF m = "" THEN IF type = "ID" THEN Str(ToBase64(Bytes(v.v))) ELSE v
  ELSE IF Char(m, 1) = "Q" THEN IF v.t = "Null" THEN Null ELSE Wire(v, type, Rest(m))
  ELSE ListV([j \in 1..Len(v.l) |-> Wire(v.l[j], type, Rest(m))])

(* Open is the typed value of what does not have the shape of a list.        *)
Open == [ok |-> "open", v |-> Null]
Typed(w, type, m) ==
  IF m = "" THEN
    CASE type \in {"Int", "Boolean"} -> IF w.t = type THEN Yes(w) ELSE No
      [] type = "Float" -> IF w.t \in {"Int", "Float"} THEN Yes([w EXCEPT !.t = "Float"]) ELSE No
      [] type = "String" -> IF Kind(w) = "String" THEN Yes(Str(w.v)) ELSE No
      [] type = "ID" -> IF Kind(w) = "String" /\ IsBase64(w.v) THEN Yes(Val("ID", HexOf(FromBase64(w.v), 1), <<>>, <<>>)) ELSE No
      [] OTHER -> Yes(w)
  ELSE IF Char(m, 1) = "Q" THEN IF w.t = "Null" THEN Yes(Null) ELSE Typed(w, type, Rest(m))
  ELSE IF w.t # "List" THEN Open
  ELSE LET es == TLCEval([j \in 1..Len(w.l) |-> Typed(w.l[j], type, Rest(m))])
       IN IF \E j \in 1..Len(es) : es[j].ok = "0" THEN No
          ELSE IF \E j \in 1..Len(es) : es[j].ok = "open" THEN Open
          ELSE Yes(ListV([j \in 1..Len(es) |-> es[j].v]))

(* A typed value comes back from its own wire form.                          *)
RoundTrip(v, type, m) == Typed(Wire(v, type, m), type, m) = Yes(v)

(* ---------------------------------------------------- service responses - *)
Get(m, k, d) == IF m.t = "Map" /\ HasMember(m, k) THEN Member(m, k) ELSE d
NoList == ListV(<<>>)
Num(v) == IF v.t = "Int" THEN v.v ELSE "0"
ErrorOf(e) ==
  LET locs == Get(e, "locations", NoList).l
      path == Get(e, "path", NoList).l
  IN [m |-> Get(e, "message", Str("")).v,
      locs |-> [j \in 1..Len(locs) |-> <<Num(Get(locs[j], "line", Int32("0"))), Num(Get(locs[j], "column", Int32("0")))>>],
      path |-> [j \in 1..Len(path) |-> IF Kind(path[j]) = "String" THEN <<"s", path[j].v>> ELSE <<"i", path[j].v>>]]
Split(r) == LET es == Get(r, "errors", NoList).l
            IN [data |-> Get(r, "data", Null), errors |-> [j \in 1..Len(es) |-> ErrorOf(es[j])]]
=============================================================================
