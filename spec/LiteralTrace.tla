---------------------------- MODULE LiteralTrace ----------------------------
(* Decides whether the argument a resolver received is the value that the    *)
(* literal in the document denotes.  Documents have one field with the       *)
(* argument a, which is a literal or a variable with a literal as default.   *)
EXTENDS Parser, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i, nok
vars == <<i, nok>>
L == Lines[i]

(* ----------------------------------------------------- decimal numbers --- *)
(* A decimal text as [neg, d, e]: 0.d * 10^e, d without zeros at either end. *)
RECURSIVE StripL(_), StripR(_), ToInt(_, _), DigitsUpTo(_, _)
Ch(s, j) == SubSeq(s, j, j)
StripL(s) == IF s # "" /\ Ch(s, 1) = "0" THEN StripL(SubSeq(s, 2, Len(s))) ELSE s
StripR(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Dig == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
ToInt(s, acc) == IF s = "" THEN acc ELSE ToInt(SubSeq(s, 2, Len(s)), acc * 10 + Dig[Ch(s, 1)])
DigitsUpTo(s, j) == IF j <= Len(s) /\ Ch(s, j) \in DOMAIN Dig THEN DigitsUpTo(s, j + 1) ELSE j
Decimal(s) ==
  LET neg == Ch(s, 1) = "-"
      a == IF neg THEN 2 ELSE 1
      b == DigitsUpTo(s, a)
      dot == b <= Len(s) /\ Ch(s, b) = "."
      c == IF dot THEN DigitsUpTo(s, b + 1) ELSE b
      x == IF c <= Len(s) THEN SubSeq(s, c + 1, Len(s)) ELSE ""
      xs == IF x # "" /\ Ch(x, 1) \in {"+", "-"} THEN SubSeq(x, 2, Len(x)) ELSE x
      e == (IF x # "" /\ Ch(x, 1) = "-" THEN -1 ELSE 1) * ToInt(StripL(xs), 0)
      whole == SubSeq(s, a, b - 1)
      frac == IF dot THEN SubSeq(s, b + 1, c - 1) ELSE ""
      all == StripL(whole \o frac)
      lead == Len(whole) + Len(frac) - Len(all)        \* zeros dropped on the left
      d == StripR(all)
  IN IF d = "" THEN [neg |-> neg, d |-> "", e |-> 0] ELSE [neg |-> neg, d |-> d, e |-> Len(whole) - lead + e]

(* Whether integer text s fits in 32 bits.                                   *)
RECURSIVE LexLE(_, _)
LexLE(x, y) == x = "" \/ Dig[Ch(x, 1)] < Dig[Ch(y, 1)] \/ (Ch(x, 1) = Ch(y, 1) /\ LexLE(SubSeq(x, 2, Len(x)), SubSeq(y, 2, Len(y))))
Fits(s) == LET neg == Ch(s, 1) = "-"
               m == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
           IN Len(m) < 10 \/ (Len(m) = 10 /\ LexLE(m, IF neg THEN "2147483648" ELSE "2147483647"))

(* ---------------------------------------------------------------- values - *)
(* observed: [t, v, v15, l, k]; strings are bytes in hexadecimal, floats have their first 17 and 15 digits *)
(* numbers beyond the range of a double, or with digits it does not have, are left open *)
FloatIs(text, o) ==
  LET w == Decimal(text)
  IN w.e \notin -290..300 \/ (o.t = "Float" /\ (IF Len(w.d) <= 15 THEN Decimal(o.v15) = w ELSE L.exact = "1" /\ Len(w.d) = 17 => Decimal(o.v) = w))
RECURSIVE Denotes(_, _)
Denotes(n, o) ==
  CASE n.k = "int" -> IF Fits(n.n) THEN o.t = "Int" /\ o.v = (IF n.n = "-0" THEN "0" ELSE n.n) ELSE FloatIs(n.n, o)
    [] n.k = "float" -> FloatIs(n.n, o)
    [] n.k = "string" -> o.t = "String" /\ o.v = n.n
    [] n.k = "bool" -> o.t = "Boolean" /\ o.v = n.n
    [] n.k = "null" -> o.t = "Null"
    [] n.k = "enumv" -> o.t = "Enum" /\ o.v = n.n
    [] n.k = "list" -> o.t = "List" /\ Len(o.l) = Len(n.c) /\ \A j \in 1..Len(n.c) : Denotes(n.c[j], o.l[j])
    [] n.k = "object" -> /\ o.t = "Map" /\ Len(o.k) = Len(n.c)
                         /\ \A j \in 1..Len(n.c) : \E m \in 1..Len(o.k) : o.k[m] = n.c[j].n /\ Denotes(n.c[j].c[1], o.l[m])
    [] OTHER -> FALSE

Kids(n, k) == SelectSeq(n.c, LAMBDA x : x.k = k)
Literal(op) ==
  LET a == Kids(Kids(Kids(op, "sels")[1], "field")[1], "arg")[1].c[1]
  IN IF a.k # "varuse" THEN a ELSE Kids(Kids(op, "var")[1], "default")[1].c[1]

Judge ==
  LET T == TLCEval(Lex(L.b, L.s))
      D == TLCEval(IF T[Len(T)].t = "bad" THEN No ELSE Document(T, L.b))
  IN IF L.r \notin {"value", "parse", "skip"} THEN [bad |-> {"failure"}, ok |-> 0]
     ELSE IF OpenText(T, L.b) \/ L.r = "skip" THEN [bad |-> {}, ok |-> 0]
     ELSE IF D.i = 0 THEN [bad |-> IF L.r = "value" THEN {"accepted"} ELSE {}, ok |-> 0]
     ELSE IF L.r = "parse" THEN [bad |-> {"refused"}, ok |-> 1]
     ELSE [bad |-> IF Denotes(Literal(D.n[1]), L.val) THEN {} ELSE {"value"}, ok |-> 1]

Init == i = 1 /\ nok = 0
Next == /\ i <= N
        /\ LET r == Judge
           IN /\ r.bad # {} => PrintT(<<"REJECT", L.id, 1, r.bad>>)
              /\ nok' = nok + r.ok
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Reached == i <= N \/ (PrintT(<<"DONE", N>>) /\ PrintT(<<"COUNT", nok>>))
=============================================================================
