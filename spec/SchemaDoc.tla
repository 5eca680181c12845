------------------------------ MODULE SchemaDoc ------------------------------
(* Which schema documents are consistent, and what may be said about those    *)
(* that are not: the set of explanations, each naming what is wrong and the   *)
(* place of the definition it is wrong in.  D is a document as Parser reads   *)
(* it: the sequence of its definitions.                                       *)
EXTENDS Parser

Builtin == {"Int", "Float", "String", "Boolean", "ID"}
Rng(s) == {s[i] : i \in 1..Len(s)}
Kids(n, k) == SelectSeq(n.c, LAMBDA x : x.k = k)
RECURSIVE Base(_)
Base(n) == IF n.k = "named" THEN n.n ELSE Base(n.c[1])
TypeNode(n) == SelectSeq(n.c, LAMBDA x : x.k \in {"named", "listof", "nonnull"})[1]
Where(n) == " line: " \o n.line \o " column: " \o n.col
RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
(* members of a sequence of named nodes which come after another of their name *)
Again(s) == {s[j] : j \in {j \in 1..Len(s) : \E i \in 1..(j - 1) : s[i].n = s[j].n}}
RECURSIVE Uses(_)
Uses(n) == (IF n.k = "varuse" THEN {n} ELSE {}) \cup UNION {Uses(n.c[j]) : j \in 1..Len(n.c)}

Types(D) == SelectSeq(D, LAMBDA d : d.k \in TypeKinds)
KindsOf(D, n) == {d.k : d \in {d \in Rng(Types(D)) : d.n = n}}
(* a type with what its extensions add                                       *)
Parts(D, t) == SelectSeq(D, LAMBDA d : d.k = t.k /\ d.n = t.n) \o SelectSeq(D, LAMBDA d : d.k = "x" \o t.k /\ d.n = t.n)
All(D, t, k) == LET ps == Parts(D, t) IN Flat([i \in 1..Len(ps) |-> Kids(ps[i], k)], 1)
Exts == {"x" \o k : k \in TypeKinds}

(* argument definitions and input fields: a list of them with distinct names *)
InputLists(D) ==
       {All(D, t, "inputdef") : t \in {t \in Rng(Types(D)) : t.k = "input"}}
  \cup {Kids(f, "inputdef") : f \in UNION {Rng(All(D, t, "fielddef")) : t \in {t \in Rng(Types(D)) : t.k \in {"type", "interface"}}}}
  \cup {Kids(d, "inputdef") : d \in {d \in Rng(D) : d.k = "directive"}}
FieldLists(D) == {All(D, t, "fielddef") : t \in {t \in Rng(Types(D)) : t.k \in {"type", "interface"}}}

AboutInput(D, f) ==
  LET b == Base(TypeNode(f))
      ks == KindsOf(D, b)
      dv == Kids(f, "default")
  IN   (IF b \in Builtin THEN {}
        ELSE IF ks = {} THEN {"Unknown argument type: " \o b \o Where(f)}
        ELSE IF ks \ {"scalar", "enum", "input"} # {} THEN {"Invalid argument type: " \o b \o Where(f)} ELSE {})
  \cup (IF dv # <<>> /\ dv[1].c[1].k = "null" /\ TypeNode(f).k = "nonnull"
        THEN {"Expected Non-Null default value for field name: " \o f.n \o Where(dv[1])} ELSE {})
  \cup {"Unexpected variable in default value" \o Where(u) : u \in UNION {Uses(d) : d \in Rng(dv)}}
AboutField(D, f) ==
  LET b == Base(TypeNode(f))
      ks == KindsOf(D, b)
  IN IF b \in Builtin THEN {}
     ELSE IF ks = {} THEN {"Unknown field type: " \o b \o Where(f)}
     ELSE IF "input" \in ks THEN {"Invalid field type: " \o b \o Where(f)} ELSE {}

(* input objects are values, so they cannot contain themselves: those that   *)
(* remain when all whose parts are known are taken away again and again      *)
Inputs(D) == {t.n : t \in {t \in Rng(Types(D)) : t.k = "input"}}
Needs(D, n) == UNION {{Base(TypeNode(f)) : f \in Rng(All(D, t, "inputdef"))} : t \in {t \in Rng(Types(D)) : t.k = "input" /\ t.n = n}} \cap Inputs(D)
RECURSIVE Remain(_, _)
Remain(D, S) == LET R == {n \in S : Needs(D, n) \cap S # {}} IN IF R = S THEN S ELSE Remain(D, R)

RootDefs(D) == LET ss == SelectSeq(D, LAMBDA d : d.k = "schema") \o SelectSeq(D, LAMBDA d : d.k = "xschema")
               IN Flat([i \in 1..Len(ss) |-> Kids(ss[i], "root")], 1)
Problems(D) ==
  LET T == Types(D)
      R == RootDefs(D)
      First(n) == SelectSeq(T, LAMBDA t : t.n = n)[1]
  IN   {"Unexpected executable definition" \o Where(d) : d \in {d \in Rng(D) : d.k \in ExecutableKinds}}
  \cup {"Duplicate type: " \o t.n \o Where(t) : t \in Again(T)}
  \cup {"Duplicate directive: " \o d.n \o Where(d) : d \in Again(SelectSeq(D, LAMBDA d : d.k = "directive"))}
  \cup {"Builtin type overridden: " \o t.n \o Where(First(t.n)) : t \in {t \in Rng(T) : t.n \in Builtin}}
  \cup {"Unknown type extended: " \o x.n \o Where(x) : x \in {x \in Rng(D) : x.k \in Exts /\ ~(\E t \in Rng(T) : x.k = "x" \o t.k /\ x.n = t.n)}}
  \cup UNION {UNION {AboutInput(D, f) : f \in Rng(l)} \cup {"Duplicate argument: " \o f.n \o Where(f) : f \in Again(l)} : l \in InputLists(D)}
  \cup UNION {UNION {AboutField(D, f) : f \in Rng(l)} \cup {"Duplicate field: " \o f.n \o Where(f) : f \in Again(l)} : l \in FieldLists(D)}
  \cup UNION {{"Duplicate enum value: " \o v.n \o Where(v) : v \in Again(All(D, t, "value"))} : t \in {t \in Rng(T) : t.k = "enum"}}
  \cup UNION {LET l == All(D, t, "implements")
              IN   {"Duplicate interface: " \o i.n \o Where(First(t.n)) : i \in Again(l)}
              \cup {"Unknown interface: " \o i.n \o " implemented by: " \o t.n \o Where(First(t.n)) : i \in {i \in Rng(l) : "interface" \notin KindsOf(D, i.n)}}
              \cup UNION {{"Missing field: " \o f.n \o " of interface: " \o i.n \o " implemented by: " \o t.n \o Where(First(t.n)) :
                           f \in UNION {{f \in Rng(All(D, it, "fielddef")) : ~(\E g \in Rng(All(D, t, "fielddef")) : g.n = f.n)} :
                                        it \in {it \in Rng(T) : it.k = "interface" /\ it.n = i.n}}} : i \in Rng(l)}
              : t \in {t \in Rng(T) : t.k = "type"}}
  \cup UNION {LET l == All(D, t, "memberof")
              IN   {"Duplicate union member: " \o m.n \o Where(First(t.n)) : m \in Again(l)}
              \cup {"Unknown type: " \o m.n \o " included by: " \o t.n \o Where(First(t.n)) : m \in {m \in Rng(l) : "type" \notin KindsOf(D, m.n)}}
              : t \in {t \in Rng(T) : t.k = "union"}}
  \cup {"Duplicate operation: " \o r.n : r \in Again(R)}
  \cup {"Unknown operation type: " \o r.c[1].n \o " operation: " \o r.n : r \in {r \in Rng(R) : "type" \notin KindsOf(D, r.c[1].n)}}
  \cup (IF IF R = <<>> THEN "type" \in KindsOf(D, "Query") ELSE \E r \in Rng(R) : r.n = "query" THEN {} ELSE {"Query operation type undefined"})
  \cup {"Input object cycle type: " \o n : n \in Remain(D, Inputs(D))}
=============================================================================
