------------------------------- MODULE Values -------------------------------
(* Response values, literals and text helpers shared by every module.        *)
(*                                                                          *)
(* A value is a record [t, v, l, k]: t is its type (Null, Boolean, Int,      *)
(* Float, String, JString, Enum, Scalar, List, Map; in literals also Var),   *)
(* v its text, l its elements or member values, k its member names.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Val(t, v, l, k) == [t |-> t, v |-> v, l |-> l, k |-> k]
Null == Val("Null", "", <<>>, <<>>)
Str(s) == Val("String", s, <<>>, <<>>)
Int32(s) == Val("Int", s, <<>>, <<>>)
MapV(k, l) == Val("Map", "", l, k)
ListV(l) == Val("List", "", l, <<>>)
EmptyMap == MapV(<<>>, <<>>)

Elems(s) == {s[i] : i \in 1..Len(s)}
Char(s, i) == SubSeq(s, i, i)
IndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
                 ELSE 0
Member(m, k) == m.l[IndexOf(m.k, k)]
HasMember(m, k) == k \in Elems(m.k)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)
RECURSIVE JoinStr(_, _)
JoinStr(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o JoinStr(ss, i + 1)

(* A string that came from JSON text is the same string.                     *)
Kind(v) == IF v.t = "JString" THEN "String" ELSE v.t

(* Equality of documents: members and elements in the same order.            *)
RECURSIVE Same(_, _)
Same(a, b) == /\ Kind(a) = Kind(b) /\ a.v = b.v /\ a.k = b.k /\ Len(a.l) = Len(b.l)
              /\ \A i \in 1..Len(a.l) : Same(a.l[i], b.l[i])

(* Equality of arguments: the order of the members does not matter.          *)
RECURSIVE SameU(_, _)
SameU(a, b) == /\ Kind(a) = Kind(b) /\ a.v = b.v /\ Len(a.l) = Len(b.l)
               /\ IF a.t = "Map"
                  THEN /\ Elems(a.k) = Elems(b.k)
                       /\ Len(a.k) = Cardinality(Elems(a.k)) /\ Len(b.k) = Len(a.k)
                       /\ \A i \in 1..Len(a.k) : SameU(a.l[i], Member(b, a.k[i]))
                  ELSE \A i \in 1..Len(a.l) : SameU(a.l[i], b.l[i])

(* ------------------------------------------------------------- Base64 ---- *)
(* On codes: bytes are 0..255; digits are 0..63, "=" is 64, anything else 65. *)
B64 == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="
DigitOfByte(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
                  ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE IF c = 61 THEN 64 ELSE 65
ByteOfDigit(d) == IF d < 26 THEN d + 65 ELSE IF d < 52 THEN d + 71 ELSE IF d < 62 THEN d - 4 ELSE IF d = 62 THEN 43 ELSE IF d = 63 THEN 47 ELSE 61
HexDigits == "0123456789abcdef"
HexByte(b) == Char(HexDigits, (b \div 16) + 1) \o Char(HexDigits, (b % 16) + 1)
HexCode(c) == CHOOSE i \in 0..15 : Char(HexDigits, i + 1) = c
Bytes(hex) == [i \in 1..(Len(hex) \div 2) |-> HexCode(Char(hex, 2 * i - 1)) * 16 + HexCode(Char(hex, 2 * i))]
RECURSIVE HexOf(_, _)
HexOf(b, i) == IF i > Len(b) THEN "" ELSE HexByte(b[i]) \o HexOf(b, i + 1)

(* The digits for bytes b from i on.                                         *)
RECURSIVE Enc(_, _)
Enc(b, i) ==
  LET n == Len(b) - i + 1
  IN IF n <= 0 THEN <<>>
     ELSE IF n = 1 THEN <<b[i] \div 4, (b[i] % 4) * 16, 64, 64>>
     ELSE IF n = 2 THEN <<b[i] \div 4, (b[i] % 4) * 16 + b[i + 1] \div 16, (b[i + 1] % 16) * 4, 64>>
     ELSE <<b[i] \div 4, (b[i] % 4) * 16 + b[i + 1] \div 16, (b[i + 1] % 16) * 4 + b[i + 2] \div 64, b[i + 2] % 64>> \o Enc(b, i + 3)

(* The digits before the padding, if the text has a legal shape.             *)
Body(d) ==
  LET n == Len(d)
      pad == IF n > 0 /\ n % 4 = 0 /\ d[n] = 64 THEN (IF d[n - 1] = 64 THEN 2 ELSE 1) ELSE 0
  IN SubSeq(d, 1, n - pad)
Legal(d) ==
  LET b == Body(d)
      n == Len(b)
  IN /\ \A i \in 1..n : b[i] < 64
     /\ n % 4 # 1
     /\ n % 4 = 2 => b[n] % 16 = 0
     /\ n % 4 = 3 => b[n] % 4 = 0
Dec(d) ==
  LET b == Body(d)
      n == Len(b)
      len == (n \div 4) * 3 + (IF n % 4 = 2 THEN 1 ELSE IF n % 4 = 3 THEN 2 ELSE 0)
      Byte(j) == LET q == (j - 1) \div 3
                     r == (j - 1) % 3
                 IN CASE r = 0 -> b[4 * q + 1] * 4 + b[4 * q + 2] \div 16
                      [] r = 1 -> (b[4 * q + 2] % 16) * 16 + b[4 * q + 3] \div 4
                      [] OTHER -> (b[4 * q + 3] % 4) * 64 + b[4 * q + 4]
  IN [j \in 1..len |-> Byte(j)]

(* On texts.                                                                 *)
DigitsOf(s) == [i \in 1..Len(s) |-> LET c == Char(s, i) IN IF \E j \in 0..64 : Char(B64, j + 1) = c THEN CHOOSE j \in 0..64 : Char(B64, j + 1) = c ELSE 65]
RECURSIVE TextOf(_, _)
TextOf(d, i) == IF i > Len(d) THEN "" ELSE Char(B64, d[i] + 1) \o TextOf(d, i + 1)
ToBase64(bytes) == TextOf(Enc(bytes, 1), 1)
IsBase64(s) == Legal(DigitsOf(s))
FromBase64(s) == Dec(DigitsOf(s))
=============================================================================
