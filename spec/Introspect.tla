----------------------------- MODULE Introspect -----------------------------
(* What a service says about its schema (GraphQL June 2018, section 4).      *)
(*                                                                          *)
(* The schema in force is W.full: its types in the order they were defined,  *)
(* its directives, its root operation types.  A type as seen by              *)
(* introspection is a reference [n, w]: a named type inside wrappers.        *)
EXTENDS Collect

(* A list whose order says nothing.                                          *)
BagV(l) == Val("Bag", "", l, <<>>)
EnumV(s) == Val("Enum", s, <<>>, <<>>)
BoolV(b) == Val("Boolean", IF b THEN "true" ELSE "false", <<>>, <<>>)
OptStr(s) == IF s = "" THEN Null ELSE Str(s)

RECURSIVE SameB(_, _), BagOf(_, _)
(* x is expected, a is what there is.                                        *)
SameB(x, a) ==
  IF x.t = "Bag" THEN a.t = "List" /\ BagOf(x.l, a.l)
  ELSE /\ Kind(x) = Kind(a) /\ x.v = a.v /\ x.k = a.k /\ Len(x.l) = Len(a.l)
       /\ \A i \in 1..Len(x.l) : SameB(x.l[i], a.l[i])
BagOf(xs, as) ==
  IF Len(xs) # Len(as) THEN FALSE
  ELSE IF xs = <<>> THEN TRUE
  ELSE LET is == {i \in 1..Len(as) : SameB(xs[1], as[i])}
       IN is # {} /\ LET i == CHOOSE i \in is : \A j \in is : i <= j
                     IN BagOf(Tail(xs), SubSeq(as, 1, i - 1) \o SubSeq(as, i + 1, Len(as)))

KnownType(G, n) == \E i \in 1..Len(G.W.full.types) : G.W.full.types[i].name = n
TypeDef(G, n) == G.W.full.types[CHOOSE i \in 1..Len(G.W.full.types) : G.W.full.types[i].name = n]
Ref(n) == [n |-> n, w |-> <<>>]

(* The objects that can stand where the type is expected.                    *)
Implementors(G, n) ==
  LET is == SelectSeq([i \in 1..Len(G.W.full.types) |-> i], LAMBDA i : n \in Elems(G.W.full.types[i].ifaces))
  IN [j \in 1..Len(is) |-> G.W.full.types[is[j]].name]

WithDeprecated(G, s) == \E i \in 1..Len(s.args) : s.args[i].n = "includeDeprecated" /\ Eval(s.args[i].v, G.vars).v = "true"
Shown(G, s, l) == IF WithDeprecated(G, s) THEN l ELSE SelectSeq(l, LAMBDA x : x.dep = <<>>)

RECURSIVE Meta(_, _, _, _)
(* The fields sels of the metadata object x of type tn.                      *)
Meta(G, tn, x, sels) ==
  LET cs == Coll([names |-> {tn}, vars |-> G.vars, frags |-> G.frags], sels, 1, NoDirs, <<>>)
      All(t, l, s) == [i \in 1..Len(l) |-> Meta(G, t, l[i], s.sel)]
      Refs(l, s) == All("__Type", [i \in 1..Len(l) |-> Ref(l[i])], s)
      OnSchema(s) ==
        CASE s.n = "types" -> BagV(Refs([i \in 1..Len(x.types) |-> x.types[i].name], s))
          [] s.n = "directives" -> BagV(All("__Directive", x.directives, s))
          [] OTHER -> LET r == CASE s.n = "queryType" -> x.query [] s.n = "mutationType" -> x.mutation [] OTHER -> x.subscription
                      IN IF r = "" THEN Null ELSE Meta(G, "__Type", Ref(r), s.sel)
      OnType(s) ==
        IF x.w # <<>>
        THEN CASE s.n = "kind" -> EnumV(IF x.w[1] = "N" THEN "NON_NULL" ELSE "LIST")
               [] s.n = "ofType" -> Meta(G, "__Type", [n |-> x.n, w |-> Tail(x.w)], s.sel)
               [] OTHER -> Null
        ELSE LET d == TypeDef(G, x.n)
             IN CASE s.n = "kind" -> EnumV(IF d.kind = "INPUT" THEN "INPUT_OBJECT" ELSE d.kind)
                  [] s.n = "name" -> Str(x.n)
                  [] s.n = "description" -> OptStr(d.desc)
                  [] s.n = "fields" -> IF d.kind \in {"OBJECT", "INTERFACE"} THEN ListV(All("__Field", Shown(G, s, d.fields), s)) ELSE Null
                  [] s.n = "interfaces" -> IF d.kind = "OBJECT" THEN ListV(Refs(d.ifaces, s)) ELSE Null
                  [] s.n = "possibleTypes" -> IF d.kind = "UNION" THEN BagV(Refs(d.members, s))
                                              ELSE IF d.kind = "INTERFACE" THEN BagV(Refs(Implementors(G, x.n), s)) ELSE Null
                  [] s.n = "enumValues" -> IF d.kind = "ENUM" THEN ListV(All("__EnumValue", Shown(G, s, d.values), s)) ELSE Null
                  [] s.n = "inputFields" -> IF d.kind = "INPUT" THEN ListV(All("__InputValue", d.inputs, s)) ELSE Null
                  [] OTHER -> Null
      Deprecation(s) ==
        CASE s.n = "isDeprecated" -> BoolV(x.dep # <<>>)
          [] OTHER -> IF x.dep = <<>> THEN Null ELSE Str(x.dep[1])
      OnOther(s) ==
        CASE s.n = "name" -> Str(x.name)
          [] s.n = "description" -> OptStr(x.desc)
          [] s.n = "type" -> Meta(G, "__Type", x.type, s.sel)
          [] s.n = "args" -> ListV(All("__InputValue", x.args, s))
          [] s.n = "defaultValue" -> OptStr(x.def)
          [] s.n = "locations" -> BagV([i \in 1..Len(x.locs) |-> EnumV(x.locs[i])])
          [] OTHER -> Deprecation(s)
      Value(s) == CASE s.n = "__typename" -> Str(tn)
                    [] tn = "__Schema" -> OnSchema(s)
                    [] tn = "__Type" -> OnType(s)
                    [] OTHER -> OnOther(s)
  IN MapV([i \in 1..Len(cs) |-> cs[i].rn], [i \in 1..Len(cs) |-> Value(cs[i].s)])

SchemaV(G, sels) == Meta(G, "__Schema", G.W.full, sels)
NamedV(G, n, sels) == Meta(G, "__Type", Ref(n), sels)
=============================================================================
