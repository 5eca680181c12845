------------------------------ MODULE JsonText ------------------------------
(* JSON text (RFC 8259) and the response value it denotes.                   *)
(*                                                                          *)
(* A text is its bytes b and the same bytes as characters s.  Values are     *)
(* [t, v, l, k] as in Values, with strings and keys as bytes in hexadecimal. *)
(* Numbers: integers of 32 bits are Int; the nearest double of any other     *)
(* number that is written with a fraction or exponent comes from the table   *)
(* num (17 digits); other integers are Big (64 bits) or Huge.                *)
EXTENDS Values

Bad0 == [i |-> 0, v |-> Null]
At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
RECURSIVE SkipWs(_, _), Digits(_, _)
SkipWs(b, i) == IF At(b, i) \in {32, 9, 10, 13} THEN SkipWs(b, i + 1) ELSE i
Digits(b, i) == IF At(b, i) \in 48..57 THEN Digits(b, i + 1) ELSE i

(* ----------------------------------------------------------- numbers ----- *)
Code(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE LessEq(_, _)
LessEq(x, y) == x = "" \/ Code(Char(x, 1)) < Code(Char(y, 1)) \/ (Char(x, 1) = Char(y, 1) /\ LessEq(SubSeq(x, 2, Len(x)), SubSeq(y, 2, Len(y))))
UpTo(m, max) == Len(m) < Len(max) \/ (Len(m) = Len(max) /\ LessEq(m, max))
Integer(text) ==
  LET neg == Char(text, 1) = "-"
      m == IF neg THEN SubSeq(text, 2, Len(text)) ELSE text
  IN IF UpTo(m, IF neg THEN "2147483648" ELSE "2147483647") THEN Val("Int", IF m = "0" THEN "0" ELSE text, <<>>, <<>>)
     ELSE IF UpTo(m, IF neg THEN "9223372036854775808" ELSE "18446744073709551615") THEN Val("Big", text, <<>>, <<>>)
     ELSE Val("Huge", text, <<>>, <<>>)
Number(b, s, i, num) ==
  LET j == IF At(b, i) = 45 THEN i + 1 ELSE i
      e1 == IF At(b, j) = 48 THEN j + 1 ELSE Digits(b, j)
      dot == At(b, e1) = 46
      e2 == IF dot THEN Digits(b, e1 + 1) ELSE e1
      ex == At(b, e2) \in {69, 101}
      sg == IF ex /\ At(b, e2 + 1) \in {43, 45} THEN e2 + 2 ELSE e2 + 1
      e3 == IF ex THEN Digits(b, sg) ELSE e2
      text == SubSeq(s, i, e3 - 1)
  IN IF e1 = j \/ (dot /\ e2 = e1 + 1) \/ (ex /\ e3 = sg) THEN Bad0
     ELSE [i |-> e3, v |-> IF dot \/ ex THEN Val("Float", num[text], <<>>, <<>>) ELSE Integer(text)]

(* ----------------------------------------------------------- strings ----- *)
Hex4(b, i) == IF \A d \in 0..3 : At(b, i + d) \in (48..57) \cup (65..70) \cup (97..102)
              THEN LET X(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
                   IN X(b[i]) * 4096 + X(b[i + 1]) * 256 + X(b[i + 2]) * 16 + X(b[i + 3])
              ELSE -1
Utf8(c) == IF c < 128 THEN HexByte(c)
           ELSE IF c < 2048 THEN HexByte(192 + c \div 64) \o HexByte(128 + (c % 64))
           ELSE IF c < 65536 THEN HexByte(224 + c \div 4096) \o HexByte(128 + ((c \div 64) % 64)) \o HexByte(128 + (c % 64))
           ELSE HexByte(240 + c \div 262144) \o HexByte(128 + ((c \div 4096) % 64)) \o HexByte(128 + ((c \div 64) % 64)) \o HexByte(128 + (c % 64))
Simple == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
(* from i, inside the quotes: the bytes, and where the text goes on          *)
RECURSIVE StrFrom(_, _, _)
StrFrom(b, i, acc) ==
  LET c == At(b, i) IN
  IF c = 34 THEN [i |-> i + 1, h |-> acc]
  ELSE IF c < 32 THEN [i |-> 0, h |-> ""]
  ELSE IF c # 92 THEN StrFrom(b, i + 1, acc \o HexByte(c))
  ELSE LET d == At(b, i + 1) IN
       IF d \in DOMAIN Simple THEN StrFrom(b, i + 2, acc \o HexByte(Simple[d]))
       ELSE IF d # 117 THEN [i |-> 0, h |-> ""]
       ELSE LET u == Hex4(b, i + 2)
                w == IF At(b, i + 6) = 92 /\ At(b, i + 7) = 117 THEN Hex4(b, i + 8) ELSE -1
            IN IF u < 0 \/ u \in 56320..57343 THEN [i |-> 0, h |-> ""]
               ELSE IF u \in 55296..56319
                    THEN IF w \in 56320..57343 THEN StrFrom(b, i + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (w - 56320))) ELSE [i |-> 0, h |-> ""]
                    ELSE StrFrom(b, i + 6, acc \o Utf8(u))

(* ------------------------------------------------------------ values ----- *)
Word(s, i, w) == SubSeq(s, i, IF i + Len(w) - 1 <= Len(s) THEN i + Len(w) - 1 ELSE Len(s)) = w
RECURSIVE ValueAt(_, _, _, _), Members(_, _, _, _, _), Elements(_, _, _, _, _)
ValueAt(b, s, i0, num) ==
  LET i == SkipWs(b, i0)
      c == At(b, i)
  IN CASE c = 34 -> LET r == StrFrom(b, i + 1, "") IN IF r.i = 0 THEN Bad0 ELSE [i |-> r.i, v |-> Val("String", r.h, <<>>, <<>>)]
       [] c = 123 -> IF At(b, SkipWs(b, i + 1)) = 125 THEN [i |-> SkipWs(b, i + 1) + 1, v |-> EmptyMap] ELSE Members(b, s, i + 1, num, EmptyMap)
       [] c = 91 -> IF At(b, SkipWs(b, i + 1)) = 93 THEN [i |-> SkipWs(b, i + 1) + 1, v |-> ListV(<<>>)] ELSE Elements(b, s, i + 1, num, <<>>)
       [] c = 45 \/ c \in 48..57 -> Number(b, s, i, num)
       [] c = 116 /\ Word(s, i, "true") -> [i |-> i + 4, v |-> Val("Boolean", "true", <<>>, <<>>)]
       [] c = 102 /\ Word(s, i, "false") -> [i |-> i + 5, v |-> Val("Boolean", "false", <<>>, <<>>)]
       [] c = 110 /\ Word(s, i, "null") -> [i |-> i + 4, v |-> Null]
       [] OTHER -> Bad0
Members(b, s, i0, num, m) ==
  LET i == SkipWs(b, i0)
      key == IF At(b, i) = 34 THEN StrFrom(b, i + 1, "") ELSE [i |-> 0, h |-> ""]
      col == IF key.i = 0 THEN 0 ELSE SkipWs(b, key.i)
      val == IF col = 0 \/ At(b, col) # 58 THEN Bad0 ELSE ValueAt(b, s, col + 1, num)
      n == MapV(Append(m.k, key.h), Append(m.l, val.v))
      z == IF val.i = 0 THEN 0 ELSE SkipWs(b, val.i)
  IN IF z = 0 THEN Bad0
     ELSE IF At(b, z) = 44 THEN Members(b, s, z + 1, num, n)
     ELSE IF At(b, z) = 125 THEN [i |-> z + 1, v |-> n] ELSE Bad0
Elements(b, s, i0, num, l) ==
  LET val == ValueAt(b, s, i0, num)
      n == Append(l, val.v)
      z == IF val.i = 0 THEN 0 ELSE SkipWs(b, val.i)
  IN IF z = 0 THEN Bad0
     ELSE IF At(b, z) = 44 THEN Elements(b, s, z + 1, num, n)
     ELSE IF At(b, z) = 93 THEN [i |-> z + 1, v |-> ListV(n)] ELSE Bad0
(* The value of a whole text; i = 0 if it is not JSON.                       *)
Text(b, s, num) ==
  LET r == ValueAt(b, s, 1, num)
  IN IF r.i # 0 /\ SkipWs(b, r.i) = Len(b) + 1 THEN r ELSE Bad0

RECURSIVE AnyOf(_, _), Twice(_), Plain(_)
AnyOf(v, ts) == v.t \in ts \/ \E j \in 1..Len(v.l) : AnyOf(v.l[j], ts)
Twice(v) == Cardinality(Elems(v.k)) < Len(v.k) \/ \E j \in 1..Len(v.l) : Twice(v.l[j])
(* What JSON can say of a value: enum values are strings, a scalar is what it holds. *)
Plain(v) == IF v.t = "Scalar" THEN Plain(v.l[1])
            ELSE Val(IF v.t = "Enum" THEN "String" ELSE v.t, v.v, [j \in 1..Len(v.l) |-> Plain(v.l[j])], v.k)
=============================================================================
