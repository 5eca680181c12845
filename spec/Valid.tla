-------------------------------- MODULE Valid --------------------------------
(* Validation of executable documents (GraphQL June 2018, section 5).        *)
(*                                                                          *)
(* Violations(W, doc) is the set of rules a document breaks against schema   *)
(* W; the document is valid exactly when the set is empty.  Deviations that  *)
(* belong to this library: IDs are canonical Base64 strings, and a single    *)
(* value is not accepted as a list ("coerce": see known-findings.txt).       *)
EXTENDS Values

Leafs == {"SCALAR", "ENUM"}
Composites == {"OBJECT", "INTERFACE", "UNION"}
Known(W, n) == n \in DOMAIN W.types
KindOf(W, n) == IF Known(W, n) THEN W.types[n].kind ELSE "NONE"
Possible(W, n) == Elems(W.types[n].poss)
NN(w) == w # <<>> /\ w[1] = "N"
Strip(w) == IF NN(w) THEN Tail(w) ELSE w

(* ------------------------------------------------------------- values ---- *)
DigitCode == [c \in {Char("0123456789", i) : i \in 1..10} |-> CHOOSE i \in 0..9 : Char("0123456789", i + 1) = c]
RECURSIVE LeqDigits(_, _, _)
LeqDigits(a, b, i) ==
  IF i > Len(a) THEN TRUE
  ELSE IF DigitCode[Char(a, i)] # DigitCode[Char(b, i)] THEN DigitCode[Char(a, i)] < DigitCode[Char(b, i)]
  ELSE LeqDigits(a, b, i + 1)
Fits32(s) ==
  LET neg == Char(s, 1) = "-"
      d == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
  IN Len(d) < 10 \/ (Len(d) = 10 /\ LeqDigits(d, IF neg THEN "2147483648" ELSE "2147483647", 1))

HasDup(s) == Cardinality(Elems(s)) # Len(s)
RECURSIVE DupKeys(_)
DupKeys(v) == (v.t = "Map" /\ HasDup(v.k)) \/ \E i \in 1..Len(v.l) : DupKeys(v.l[i])

InputOf(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i].name = n]
Names(fs) == {fs[i].name : i \in 1..Len(fs)}
Required(f) == NN(f.w) /\ f.def = ""

(* Whether a literal (with variables set aside) is acceptable for a type.    *)
RECURSIVE ValueViol(_, _, _, _)
ValueViol(W, v, n, w) ==
  LET r == Strip(w)
  IN IF v.t = "Var" THEN {}
     ELSE IF v.t = "Null" THEN (IF NN(w) THEN {"value"} ELSE {})
     ELSE IF r # <<>>
          THEN IF v.t = "List" THEN UNION {ValueViol(W, v.l[i], n, Tail(r)) : i \in 1..Len(v.l)}
               ELSE {"coerce"} \cup ValueViol(W, v, n, Tail(r))
     ELSE CASE n = "Int" -> IF v.t = "Int" /\ Fits32(v.v) THEN {} ELSE {"value"}
            [] n = "Float" -> IF v.t \in {"Int", "Float"} THEN {} ELSE {"value"}
            [] n = "String" -> IF v.t = "String" THEN {} ELSE {"value"}
            [] n = "Boolean" -> IF v.t = "Boolean" THEN {} ELSE {"value"}
            [] n = "ID" -> IF v.t = "String" /\ IsBase64(v.v) THEN {} ELSE {"value"}
            [] KindOf(W, n) = "ENUM" -> IF v.t = "Enum" /\ v.v \in Elems(W.types[n].values) THEN {} ELSE {"value"}
            [] KindOf(W, n) = "INPUT" ->
                 IF v.t # "Map" THEN {"value"}
                 ELSE LET fs == W.types[n].inputs
                      IN UNION {IF v.k[i] \in Names(fs) THEN ValueViol(W, v.l[i], InputOf(fs, v.k[i]).n, InputOf(fs, v.k[i]).w) ELSE {"inputname"}
                                : i \in 1..Len(v.k)}
                         \cup UNION {IF Required(fs[i]) /\ fs[i].name \notin Elems(v.k) THEN {"inputreq"} ELSE {} : i \in 1..Len(fs)}
            [] OTHER -> {}

(* The arguments written for a field or directive whose definition has fs.   *)
ArgsViol(W, args, fs) ==
  LET ns == [i \in 1..Len(args) |-> args[i].n]
  IN (IF HasDup(ns) THEN {"arguniq"} ELSE {})
     \cup UNION {IF DupKeys(args[i].v) THEN {"inputuniq"} ELSE {} : i \in 1..Len(args)}
     \cup UNION {IF args[i].n \in Names(fs) THEN ValueViol(W, args[i].v, InputOf(fs, args[i].n).n, InputOf(fs, args[i].n).w) ELSE {"argname"}
                 : i \in 1..Len(args)}
     \cup UNION {IF Required(fs[i]) /\ fs[i].name \notin Elems(ns) THEN {"argreq"} ELSE {} : i \in 1..Len(fs)}

(* Directives at one location.                                               *)
DirArgs(r) == IF r = {} THEN {} ELSE r \cup {"dirargs"}
DirsViol(W, dirs, loc) ==
  (IF HasDup([i \in 1..Len(dirs) |-> dirs[i].n]) THEN {"diruniq"} ELSE {})
  \cup UNION {IF dirs[i].n \notin DOMAIN W.dirs THEN {"dirdef"}
              ELSE (IF loc \in Elems(W.dirs[dirs[i].n].locs) THEN {} ELSE {"dirloc"})
                   \cup DirArgs(ArgsViol(W, dirs[i].args, W.dirs[dirs[i].n].args))
              : i \in 1..Len(dirs)}

(* ------------------------------------------------------------- fields ---- *)
TypenameField == [n |-> "String", w |-> <<"N">>, args |-> <<>>]
SchemaField == [n |-> "__Schema", w |-> <<"N">>, args |-> <<>>]
TypeField == [n |-> "__Type", w |-> <<>>, args |-> <<[name |-> "name", n |-> "String", w |-> <<"N">>, def |-> ""]>>]
NoField == [n |-> "", w |-> <<>>, args |-> <<>>]
FieldOf(W, P, n) ==
  IF n = "__typename" THEN TypenameField
  ELSE IF n = "__schema" /\ P = W.query /\ W.intro = "1" THEN SchemaField
  ELSE IF n = "__type" /\ P = W.query /\ W.intro = "1" THEN TypeField
  ELSE IF n \in DOMAIN W.types[P].fields /\ n # "_" THEN W.types[P].fields[n]
  ELSE NoField

HasFrag(doc, n) == \E i \in 1..Len(doc.frags) : doc.frags[i].n = n
Frag(doc, n) == doc.frags[CHOOSE i \in 1..Len(doc.frags) : doc.frags[i].n = n /\ \A j \in 1..(i - 1) : doc.frags[j].n # n]

(* The rules that concern one selection set in the scope of type P.          *)
RECURSIVE SelsViol(_, _, _, _)
SelViol(W, doc, P, s) ==
  IF s.k = "field"
  THEN LET f == FieldOf(W, P, s.n)
           k == KindOf(W, f.n)
       IN DirsViol(W, s.dirs, "FIELD")
          \cup (IF f = NoField THEN {"fieldname"}
                ELSE ArgsViol(W, s.args, f.args)
                     \cup (IF s.has = "1" /\ k \in Leafs THEN {"leaf"} ELSE {})
                     \cup (IF s.has = "0" /\ k \in Composites THEN {"subsel"} ELSE {})
                     \cup (IF s.has = "1" /\ k \in Composites THEN SelsViol(W, doc, f.n, s.sel) ELSE {}))
  ELSE IF s.k = "spread"
  THEN DirsViol(W, s.dirs, "FRAGMENT_SPREAD")
       \cup (IF ~HasFrag(doc, s.n) THEN {"fragdef"}
             ELSE LET T == Frag(doc, s.n).on
                  IN IF KindOf(W, T) \in Composites /\ Possible(W, P) \cap Possible(W, T) = {} THEN {"fragposs"} ELSE {})
  ELSE DirsViol(W, s.dirs, "INLINE_FRAGMENT")
       \cup (IF s.on = "" THEN SelsViol(W, doc, P, s.sel)
             ELSE IF KindOf(W, s.on) \notin Composites THEN {"fragtype"}
             ELSE (IF Possible(W, P) \cap Possible(W, s.on) = {} THEN {"fragposs"} ELSE {}) \cup SelsViol(W, doc, s.on, s.sel))
SelsViol(W, doc, P, sels) == UNION {SelViol(W, doc, P, sels[i]) : i \in 1..Len(sels)}

RECURSIVE SpreadsIn(_)
SpreadsIn(sels) ==
  UNION {IF sels[i].k = "spread" THEN {sels[i].n} ELSE SpreadsIn(sels[i].sel) : i \in 1..Len(sels)}
(* The fragments a set of selections reaches, directly or not.               *)
RECURSIVE Reach(_, _, _)
Reach(doc, todo, seen) ==
  LET new == {n \in todo : n \notin seen /\ HasFrag(doc, n)}
  IN IF new = {} THEN seen
     ELSE Reach(doc, UNION {SpreadsIn(Frag(doc, n).sel) : n \in new}, seen \cup new)
FragNames(doc) == {doc.frags[i].n : i \in 1..Len(doc.frags)}
Cyclic(doc) == \E n \in FragNames(doc) : n \in Reach(doc, SpreadsIn(Frag(doc, n).sel), {})

(* -------------------------------------------------- field merging (5.3.2)  *)
RECURSIVE Flat(_, _, _, _, _)
(* The fields of a selection set with the type each is selected on; every fragment is entered once. *)
Flat(W, doc, P, sels, i) ==
  IF i > Len(sels) THEN <<>>
  ELSE LET s == sels[i]
           here == IF s.k = "field" THEN <<[s |-> s, P |-> P]>>
                   ELSE IF s.k = "spread" THEN Flat(W, doc, Frag(doc, s.n).on, Frag(doc, s.n).sel, 1)
                   ELSE Flat(W, doc, IF s.on = "" THEN P ELSE s.on, s.sel, 1)
       IN here \o Flat(W, doc, P, sels, i + 1)
RName(s) == IF s.a = "" THEN s.n ELSE s.a
Sub(W, doc, x) == LET f == FieldOf(W, x.P, x.s.n) IN IF x.s.has = "1" THEN Flat(W, doc, f.n, x.s.sel, 1) ELSE <<>>
SameArgs(a, b) ==
  /\ {a[i].n : i \in 1..Len(a)} = {b[i].n : i \in 1..Len(b)}
  /\ \A i \in 1..Len(a) : \A j \in 1..Len(b) : a[i].n = b[j].n => SameU(a[i].v, b[j].v)

RECURSIVE Shape(_, _, _, _), Merge(_, _, _), ShapeAll(_, _, _)
Shape(W, doc, a, b) ==
  LET fa == FieldOf(W, a.P, a.s.n)
      fb == FieldOf(W, b.P, b.s.n)
  IN /\ fa.w = fb.w
     /\ IF KindOf(W, fa.n) \in Leafs \/ KindOf(W, fb.n) \in Leafs THEN fa.n = fb.n
        ELSE (a.s = b.s /\ a.P = b.P) \/ ShapeAll(W, doc, Sub(W, doc, a) \o Sub(W, doc, b))
ShapeAll(W, doc, fs) == \A i \in 1..Len(fs) : \A j \in (i + 1)..Len(fs) : RName(fs[i].s) = RName(fs[j].s) => Shape(W, doc, fs[i], fs[j])
Merge(W, doc, fs) ==
  \A i \in 1..Len(fs) : \A j \in (i + 1)..Len(fs) :
    RName(fs[i].s) = RName(fs[j].s) =>
      LET a == fs[i]
          b == fs[j]
      IN /\ Shape(W, doc, a, b)
         /\ (a.P = b.P \/ KindOf(W, a.P) # "OBJECT" \/ KindOf(W, b.P) # "OBJECT") =>
              /\ a.s.n = b.s.n /\ SameArgs(a.s.args, b.s.args)
              /\ Merge(W, doc, Sub(W, doc, a) \o Sub(W, doc, b))
RECURSIVE MergeEverywhere(_, _, _, _)
MergeEverywhere(W, doc, P, sels) ==
  /\ Merge(W, doc, Flat(W, doc, P, sels, 1))
  /\ \A i \in 1..Len(sels) :
       CASE sels[i].k = "field" -> sels[i].has = "0" \/ MergeEverywhere(W, doc, FieldOf(W, P, sels[i].n).n, sels[i].sel)
         [] sels[i].k = "inline" -> MergeEverywhere(W, doc, IF sels[i].on = "" THEN P ELSE sels[i].on, sels[i].sel)
         [] OTHER -> TRUE

(* ---------------------------------------------------------- variables ---- *)
(* A use of a variable: its name and the type expected there ("" is any).    *)
Use(n, tn, w, d) == [n |-> n, tn |-> tn, w |-> w, d |-> d]
RECURSIVE ValueUses(_, _, _, _, _)
ValueUses(W, v, n, w, d) ==
  IF v.t = "Var" THEN {Use(v.v, n, w, d)}
  ELSE LET r == Strip(w)
       IN IF v.t = "List" THEN (IF r # <<>> /\ r[1] = "L" THEN UNION {ValueUses(W, v.l[i], n, Tail(r), FALSE) : i \in 1..Len(v.l)}
                                ELSE UNION {ValueUses(W, v.l[i], "", <<>>, FALSE) : i \in 1..Len(v.l)})
          ELSE IF v.t = "Map"
               THEN LET fs == IF KindOf(W, n) = "INPUT" THEN W.types[n].inputs ELSE <<>>
                    IN UNION {IF v.k[i] \in Names(fs) THEN LET f == InputOf(fs, v.k[i]) IN ValueUses(W, v.l[i], f.n, f.w, f.def \notin {"", "null"})
                              ELSE ValueUses(W, v.l[i], "", <<>>, FALSE) : i \in 1..Len(v.k)}
          ELSE {}
ArgUses(W, args, fs) ==
  UNION {IF args[i].n \in Names(fs) THEN LET f == InputOf(fs, args[i].n) IN ValueUses(W, args[i].v, f.n, f.w, f.def \notin {"", "null"})
         ELSE ValueUses(W, args[i].v, "", <<>>, FALSE) : i \in 1..Len(args)}
DirUses(W, dirs) == UNION {ArgUses(W, dirs[i].args, IF dirs[i].n \in DOMAIN W.dirs THEN W.dirs[dirs[i].n].args ELSE <<>>) : i \in 1..Len(dirs)}
RECURSIVE SelUses(_, _, _)
SelUses(W, P, sels) ==
  UNION {LET s == sels[i]
             f == IF KindOf(W, P) \in Composites /\ s.k = "field" THEN FieldOf(W, P, s.n) ELSE NoField
         IN DirUses(W, s.dirs) \cup
            CASE s.k = "field" -> ArgUses(W, s.args, f.args) \cup SelUses(W, f.n, s.sel)
              [] s.k = "inline" -> SelUses(W, IF s.on = "" THEN P ELSE s.on, s.sel)
              [] OTHER -> {}
         : i \in 1..Len(sels)}

RECURSIVE Fits(_, _)
(* A variable with modifiers v where modifiers l are expected (same name).   *)
Fits(v, l) ==
  IF NN(l) THEN NN(v) /\ Fits(Tail(v), Tail(l))
  ELSE IF NN(v) THEN Fits(Tail(v), l)
  ELSE IF l = <<>> THEN v = <<>>
  ELSE v # <<>> /\ Fits(Tail(v), Tail(l))
Allowed(d, u) ==
  LET dflt == d.has = "1" /\ d.def.t # "Null"
  IN u.tn = "" \/ (/\ d.type.n = u.tn
                   /\ IF NN(u.w) /\ ~NN(d.type.w) THEN (dflt \/ u.d) /\ Fits(d.type.w, Tail(u.w)) ELSE Fits(d.type.w, u.w))
CustomScalar(W, n) == KindOf(W, n) = "SCALAR" /\ n \notin {"Int", "Float", "String", "Boolean", "ID"}

OpLoc(t) == CASE t = "query" -> "QUERY" [] t = "mutation" -> "MUTATION" [] OTHER -> "SUBSCRIPTION"
RootType(W, t) == CASE t = "query" -> W.query [] t = "mutation" -> W.mutation [] OTHER -> W.subscription

OpUses(W, doc, op) ==
  LET fr == Reach(doc, SpreadsIn(op.sel), {})
  IN DirUses(W, op.dirs) \cup SelUses(W, RootType(W, op.type), op.sel)
     \cup UNION {DirUses(W, Frag(doc, n).dirs) \cup SelUses(W, Frag(doc, n).on, Frag(doc, n).sel) : n \in fr}

VarViol(W, doc, op) ==
  LET ns == [i \in 1..Len(op.vars) |-> op.vars[i].n]
      uses == OpUses(W, doc, op)
      D(n) == op.vars[CHOOSE i \in 1..Len(ns) : ns[i] = n]
  IN (IF HasDup(ns) THEN {"varuniq"} ELSE {})
     \cup UNION {LET d == op.vars[i]
                 IN (IF KindOf(W, d.type.n) \in {"SCALAR", "ENUM", "INPUT"} THEN {} ELSE {"varinput"})
                    \cup (IF d.has = "1" /\ Known(W, d.type.n)
                          THEN LET r == ValueViol(W, d.def, d.type.n, d.type.w) IN (IF r \subseteq {"coerce"} THEN r ELSE {"vardef"})
                               \cup (IF DupKeys(d.def) THEN {"inputuniq"} ELSE {})
                          ELSE {})
                    \cup (IF \E u \in uses : u.n = d.n THEN {} ELSE {"varunused"})
                 : i \in 1..Len(op.vars)}
     \cup UNION {IF u.n \notin Elems(ns) THEN {"varundef"} ELSE IF Allowed(D(u.n), u) THEN {} ELSE {"varpos"} : u \in uses}

(* ----------------------------------------------------------- documents --- *)
Structural == {"fieldname", "leaf", "subsel", "fragdef", "fragtype", "fragcycle", "fragposs", "oproot"}
Violations(W, doc) ==
  LET opn == [i \in 1..Len(doc.ops) |-> doc.ops[i].name]
      frn == [i \in 1..Len(doc.frags) |-> doc.frags[i].n]
      used == UNION {Reach(doc, SpreadsIn(doc.ops[i].sel), {}) : i \in 1..Len(doc.ops)}
      defs == (IF HasDup(opn) THEN {"opname"} ELSE {})
              \cup (IF "" \in Elems(opn) /\ Len(opn) > 1 THEN {"loneanon"} ELSE {})
              \cup (IF HasDup(frn) THEN {"fragname"} ELSE {})
              \cup (IF Elems(frn) \subseteq used THEN {} ELSE {"fragused"})
              \cup (IF doc.sdl # "0" THEN {"execdef"} ELSE {})
              \cup (IF Cyclic(doc) THEN {"fragcycle"} ELSE {})
              \cup UNION {LET f == doc.frags[i]
                          IN DirsViol(W, f.dirs, "FRAGMENT_DEFINITION")
                             \cup IF KindOf(W, f.on) \in Composites THEN SelsViol(W, doc, f.on, f.sel) ELSE {"fragtype"}
                          : i \in 1..Len(doc.frags)}
              \cup UNION {LET o == doc.ops[i]
                              R == RootType(W, o.type)
                          IN DirsViol(W, o.dirs, OpLoc(o.type))
                             \cup IF R = "" THEN {"oproot"} ELSE SelsViol(W, doc, R, o.sel) \cup VarViol(W, doc, o)
                          : i \in 1..Len(doc.ops)}
      merge == IF defs \cap Structural # {} THEN {}
               ELSE (IF /\ \A i \in 1..Len(doc.ops) : MergeEverywhere(W, doc, RootType(W, doc.ops[i].type), doc.ops[i].sel)
                        /\ \A i \in 1..Len(doc.frags) : MergeEverywhere(W, doc, doc.frags[i].on, doc.frags[i].sel)
                     THEN {} ELSE {"merge"})
                    \cup (IF \E i \in 1..Len(doc.ops) :
                               /\ doc.ops[i].type = "subscription"
                               /\ LET fs == Flat(W, doc, W.subscription, doc.ops[i].sel, 1)
                                  IN Cardinality({RName(fs[j].s) : j \in 1..Len(fs)}) > 1
                          THEN {"subroot"} ELSE {})
  IN defs \cup merge

RulesOf(p) ==
  CASE p = "C03" -> {"opname", "loneanon", "fragname", "fragused", "execdef", "fragcycle", "fragtype", "oproot", "fragdef", "fragposs", "subroot"}
    [] p = "C04" -> {"fieldname", "leaf", "subsel", "merge"}
    [] p = "C05" -> {"arguniq", "argname", "argreq", "value", "inputname", "inputreq", "inputuniq"}
    [] p = "C06" -> {"varuniq", "varinput", "vardef", "varunused", "varundef", "varpos"}
    [] OTHER -> {"diruniq", "dirdef", "dirloc", "dirargs"}
=============================================================================
