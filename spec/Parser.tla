------------------------------- MODULE Parser -------------------------------
(* The language of documents: June 2018, section 2 and appendix B.           *)
(*                                                                          *)
(* A text is a sequence of bytes b and the same bytes as a string of one     *)
(* character each, s.  Lex gives its tokens, Document the tree.              *)
(*                                                                          *)
(* A tree is made of nodes [k, n, line, col, c]: kind, name or content,      *)
(* where it starts, children.                                                *)
EXTENDS Integers, Sequences, TLC

(* ------------------------------------------------------------ characters - *)
IsDigit(x) == 48 <= x /\ x <= 57
IsLetter(x) == (65 <= x /\ x <= 90) \/ (97 <= x /\ x <= 122) \/ x = 95
IsNameChar(x) == IsLetter(x) \/ IsDigit(x)
IsHex(x) == IsDigit(x) \/ (65 <= x /\ x <= 70) \/ (97 <= x /\ x <= 102)
HexVal(x) == IF x <= 57 THEN x - 48 ELSE IF x <= 70 THEN x - 55 ELSE x - 87
At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
Cont(x) == 128 <= x /\ x <= 191
(* The length of the source character at i, 0 if there is none: U+0009, U+000A, U+000D, U+0020 to U+FFFF as UTF-8. *)
CharLen(b, i) ==
  LET x == At(b, i)
      y == At(b, i + 1)
      z == At(b, i + 2)
  IN CASE x \in {9, 10, 13} -> 1
       [] 32 <= x /\ x <= 127 -> 1
       [] 194 <= x /\ x <= 223 -> IF Cont(y) THEN 2 ELSE 0
       [] 224 <= x /\ x <= 239 -> IF /\ Cont(y) /\ Cont(z)
                                     /\ (x = 224 => y >= 160)          \* shortest form
                                     /\ (x = 237 => y <= 159)          \* no surrogates
                                  THEN 3 ELSE 0
       [] OTHER -> 0
HexDigits == "0123456789abcdef"
HexByte(x) == SubSeq(HexDigits, (x \div 16) + 1, (x \div 16) + 1) \o SubSeq(HexDigits, (x % 16) + 1, (x % 16) + 1)
(* code point to UTF-8, in hexadecimal                                       *)
Utf8(c) ==
  IF c < 128 THEN HexByte(c)
  ELSE IF c < 2048 THEN HexByte(192 + (c \div 64)) \o HexByte(128 + (c % 64))
  ELSE IF c < 65536 THEN HexByte(224 + (c \div 4096)) \o HexByte(128 + ((c \div 64) % 64)) \o HexByte(128 + (c % 64))
  ELSE HexByte(240 + (c \div 262144)) \o HexByte(128 + ((c \div 4096) % 64)) \o HexByte(128 + ((c \div 64) % 64)) \o HexByte(128 + (c % 64))

(* ---------------------------------------------------------------- tokens - *)
(* t: p (punctuator), name, int, float, string, eof, bad; v: text or bytes in hexadecimal; e: first byte after it *)
Tok(t, v, i, e) == [t |-> t, v |-> v, i |-> i, e |-> e]

RECURSIVE SkipComment(_, _), Skip(_, _), NameEnd(_, _), DigitsEnd(_, _)
SkipComment(b, i) ==
  IF At(b, i) \in {10, 13, -1} THEN i
  ELSE LET n == CharLen(b, i) IN IF n = 0 THEN i ELSE SkipComment(b, i + n)
(* the first byte at or after i which is not ignored                         *)
Skip(b, i) ==
  LET x == At(b, i)
  IN CASE x \in {9, 10, 13, 32, 44} -> Skip(b, i + 1)
       [] x = 239 /\ At(b, i + 1) = 187 /\ At(b, i + 2) = 191 -> Skip(b, i + 3)
       [] x = 35 -> Skip(b, SkipComment(b, i + 1))
       [] OTHER -> i
NameEnd(b, i) == IF IsNameChar(At(b, i)) THEN NameEnd(b, i + 1) ELSE i
DigitsEnd(b, i) == IF IsDigit(At(b, i)) THEN DigitsEnd(b, i + 1) ELSE i

Number(b, s, i) ==
  LET d == IF At(b, i) = 45 THEN i + 1 ELSE i
      e == IF At(b, d) = 48 THEN d + 1 ELSE DigitsEnd(b, d)
      hasF == At(b, e) = 46 /\ IsDigit(At(b, e + 1))
      f == IF hasF THEN DigitsEnd(b, e + 1) ELSE e
      g == IF At(b, f) \in {69, 101} THEN (IF At(b, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1) ELSE f
      hasE == g > f /\ IsDigit(At(b, g))
      h == IF hasE THEN DigitsEnd(b, g) ELSE f
  IN IF ~IsDigit(At(b, d)) THEN Tok("bad", "", i, i)
     ELSE Tok(IF hasF \/ hasE THEN "float" ELSE "int", SubSeq(s, i, h - 1), i, h)

RECURSIVE Quoted(_, _, _), Block(_, _, _)
Hex4(b, i) == IF \A j \in 0..3 : IsHex(At(b, i + j))
              THEN HexVal(b[i]) * 4096 + HexVal(b[i + 1]) * 256 + HexVal(b[i + 2]) * 16 + HexVal(b[i + 3]) ELSE -1
Bytes(b, i, n) == IF n = 1 THEN HexByte(b[i]) ELSE IF n = 2 THEN HexByte(b[i]) \o HexByte(b[i + 1]) ELSE HexByte(b[i]) \o HexByte(b[i + 1]) \o HexByte(b[i + 2])
Fail == [ok |-> FALSE, v |-> "", e |-> 0]
Escapes == (34 :> "22") @@ (92 :> "5c") @@ (47 :> "2f") @@ (98 :> "08") @@ (102 :> "0c") @@ (110 :> "0a") @@ (114 :> "0d") @@ (116 :> "09")
(* the rest of a quoted string from i, acc: its content so far               *)
Quoted(b, i, acc) ==
  LET x == At(b, i)
  IN CASE x = 34 -> [ok |-> TRUE, v |-> acc, e |-> i + 1]
       [] x \in {10, 13, -1} -> Fail
       [] x = 92 ->
            LET y == At(b, i + 1)
            IN IF y \in DOMAIN Escapes THEN Quoted(b, i + 2, acc \o Escapes[y])
               ELSE IF y # 117 THEN Fail
               ELSE LET c == Hex4(b, i + 2)
                        lo == IF At(b, i + 6) = 92 /\ At(b, i + 7) = 117 THEN Hex4(b, i + 8) ELSE -1
                    IN IF c = -1 THEN Fail
                       ELSE IF c < 55296 \/ c > 57343 THEN Quoted(b, i + 6, acc \o Utf8(c))
                       ELSE IF c <= 56319 /\ lo >= 56320 /\ lo <= 57343       \* a surrogate pair
                       THEN Quoted(b, i + 12, acc \o Utf8(65536 + (c - 55296) * 1024 + (lo - 56320)))
                       ELSE Fail
       [] OTHER -> LET n == CharLen(b, i) IN IF n = 0 THEN Fail ELSE Quoted(b, i + n, acc \o Bytes(b, i, n))
Triple(b, i) == At(b, i) = 34 /\ At(b, i + 1) = 34 /\ At(b, i + 2) = 34
(* BlockStringValue of June 2018, section 2.9.4, on text written in hexadecimal: the lines, *)
(* less the indentation common to all but the first, and less blank ones at both ends       *)
HexAt(h, i) == IF i < Len(h) THEN SubSeq(h, i, i + 1) ELSE ""
RECURSIVE LineList(_, _, _), Indent(_, _), BlankLine(_), DropFirst(_), DropLast(_), JoinLines(_)
LineList(h, i, cur) ==
  LET x == HexAt(h, i)
  IN CASE x = "" -> <<cur>>
       [] x = "0d" -> <<cur>> \o LineList(h, IF HexAt(h, i + 2) = "0a" THEN i + 4 ELSE i + 2, "")
       [] x = "0a" -> <<cur>> \o LineList(h, i + 2, "")
       [] OTHER -> LineList(h, i + 2, cur \o x)
Indent(l, i) == IF HexAt(l, i) \in {"20", "09"} THEN Indent(l, i + 2) ELSE i - 1    \* in hexadecimal digits
BlankLine(l) == Indent(l, 1) = Len(l)
DropFirst(ls) == IF ls # <<>> /\ BlankLine(ls[1]) THEN DropFirst(Tail(ls)) ELSE ls
DropLast(ls) == IF ls # <<>> /\ BlankLine(ls[Len(ls)]) THEN DropLast(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls
JoinLines(ls) == IF ls = <<>> THEN "" ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o "0a" \o JoinLines(Tail(ls))
BlockValue(raw) ==
  LET ls == LineList(raw, 1, "")
      ind == {Indent(ls[j], 1) : j \in {k \in 2..Len(ls) : ~BlankLine(ls[k])}}
      common == IF ind = {} THEN 0 ELSE CHOOSE m \in ind : \A n \in ind : m <= n
      Cut(l) == IF common >= Len(l) THEN "" ELSE SubSeq(l, common + 1, Len(l))
  IN JoinLines(DropLast(DropFirst([j \in 1..Len(ls) |-> IF j = 1 THEN ls[j] ELSE Cut(ls[j])])))
(* the rest of a block string: with escaped triple quotes replaced           *)
Block(b, i, acc) ==
  IF Triple(b, i) THEN [ok |-> TRUE, v |-> BlockValue(acc), e |-> i + 3]
  ELSE IF At(b, i) = 92 /\ Triple(b, i + 1) THEN Block(b, i + 4, acc \o "222222")
  ELSE LET n == CharLen(b, i) IN IF n = 0 THEN Fail ELSE Block(b, i + n, acc \o Bytes(b, i, n))

TokenAt(b, s, i) ==
  LET x == At(b, i)
  IN CASE x = -1 -> Tok("eof", "", i, i)
       [] IsLetter(x) -> LET e == NameEnd(b, i) IN Tok("name", SubSeq(s, i, e - 1), i, e)
       [] IsDigit(x) \/ x = 45 -> Number(b, s, i)
       [] x = 34 -> LET r == IF Triple(b, i) THEN Block(b, i + 3, "") ELSE Quoted(b, i + 1, "")
                    IN IF r.ok THEN Tok("string", r.v, i, r.e) ELSE Tok("bad", "", i, i)
       [] x = 46 -> IF At(b, i + 1) = 46 /\ At(b, i + 2) = 46 THEN Tok("p", "...", i, i + 3) ELSE Tok("bad", "", i, i)
       [] x \in {33, 36, 38, 40, 41, 58, 61, 64, 91, 93, 123, 124, 125} -> Tok("p", SubSeq(s, i, i), i, i + 1)
       [] OTHER -> Tok("bad", "", i, i)
RECURSIVE LexFrom(_, _, _, _)
LexFrom(b, s, i, acc) ==
  LET t == TokenAt(b, s, Skip(b, i))
  IN IF t.t \in {"eof", "bad"} THEN Append(acc, t) ELSE LexFrom(b, s, t.e, Append(acc, t))
(* the tokens; the last is eof, or bad where no token starts                 *)
Lex(b, s) == LexFrom(b, s, 1, <<>>)

(* lines end with a line feed (which a carriage return may precede); columns count bytes *)
LineStarts(b) == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i] = 10)
RECURSIVE CountBefore(_, _, _)
CountBefore(ls, i, n) == IF n < Len(ls) /\ ls[n + 1] < i THEN CountBefore(ls, i, n + 1) ELSE n
Place(ls, i) == LET n == CountBefore(ls, i, 0) IN [line |-> ToString(n + 1), col |-> ToString(IF n = 0 THEN i ELSE i - ls[n])]

(* What the grammar leaves open: a number directly followed by a name, a number or a dot. *)
OpenText(T, b) == \E j \in 1..Len(T) : T[j].t \in {"int", "float"} /\ (IsNameChar(At(b, T[j].e)) \/ At(b, T[j].e) \in {46, 45})
(* the $ of a variable is written apart from its name                        *)
Apart(T) == \E j \in 1..(Len(T) - 1) : T[j].t = "p" /\ T[j].v = "$" /\ T[j + 1].t = "name" /\ T[j + 1].i # T[j].e

(* --------------------------------------------------------------- grammar - *)
(* G = [T, ls, alt]: tokens, line starts.  Every operator takes the token it   *)
(* starts at and gives [i, n]: the next token and the nodes made; i = 0 if   *)
(* the grammar has no such text.                                             *)
No == [i |-> 0, n |-> <<>>]
Yes(i, n) == [i |-> i, n |-> n]
P(G, i, p) == G.T[i].t = "p" /\ G.T[i].v = p
W(G, i, w) == G.T[i].t = "name" /\ G.T[i].v = w
IsName(G, i) == G.T[i].t = "name"
Node(G, i, k, n, c) == LET p == Place(G.ls, G.T[i].i) IN [k |-> k, n |-> n, line |-> p.line, col |-> p.col, c |-> c]
Bare(k, n, c) == [k |-> k, n |-> n, line |-> "0", col |-> "0", c |-> c]
Leaf(G, i, k) == Yes(i + 1, <<Node(G, i, k, G.T[i].v, <<>>)>>)

RECURSIVE Value(_, _), Values(_, _, _), Members(_, _, _)
Value(G, i) ==
  LET t == G.T[i]
  IN CASE t.t \in {"int", "float", "string"} -> Leaf(G, i, t.t)
       [] t.t = "name" -> IF t.v \in {"true", "false"} THEN Leaf(G, i, "bool")
                          ELSE IF t.v = "null" THEN Yes(i + 1, <<Node(G, i, "null", "", <<>>)>>)
                          ELSE Leaf(G, i, "enumv")
       [] P(G, i, "$") -> IF IsName(G, i + 1) THEN Yes(i + 2, <<Node(G, i, "varuse", G.T[i + 1].v, <<>>)>>) ELSE No
       [] P(G, i, "[") -> LET r == Values(G, i + 1, <<>>) IN IF r.i = 0 THEN No ELSE Yes(r.i, <<Node(G, i, "list", "", r.n)>>)
       [] P(G, i, "{") -> LET r == Members(G, i + 1, <<>>) IN IF r.i = 0 THEN No ELSE Yes(r.i, <<Node(G, i, "object", "", r.n)>>)
       [] OTHER -> No
Values(G, i, acc) ==
  IF P(G, i, "]") THEN Yes(i + 1, acc)
  ELSE LET r == Value(G, i) IN IF r.i = 0 THEN No ELSE Values(G, r.i, acc \o r.n)
Members(G, i, acc) ==
  IF P(G, i, "}") THEN Yes(i + 1, acc)
  ELSE IF ~(IsName(G, i) /\ P(G, i + 1, ":")) THEN No
  ELSE LET r == Value(G, i + 2) IN IF r.i = 0 THEN No ELSE Members(G, r.i, Append(acc, Node(G, i, "member", G.T[i].v, r.n)))

RECURSIVE Arguments(_, _, _)
(* after the opening parenthesis                                             *)
Arguments(G, i, acc) ==
  IF P(G, i, ")") THEN (IF acc = <<>> THEN No ELSE Yes(i + 1, acc))
  ELSE IF ~(IsName(G, i) /\ P(G, i + 1, ":")) THEN No
  ELSE LET r == Value(G, i + 2) IN IF r.i = 0 THEN No ELSE Arguments(G, r.i, Append(acc, Node(G, i, "arg", G.T[i].v, r.n)))
OptArguments(G, i) == IF P(G, i, "(") THEN Arguments(G, i + 1, <<>>) ELSE Yes(i, <<>>)

RECURSIVE Directives(_, _, _)
Directives(G, i, acc) ==
  IF ~P(G, i, "@") THEN Yes(i, acc)
  ELSE IF ~IsName(G, i + 1) THEN No
  ELSE LET a == OptArguments(G, i + 2)
       IN IF a.i = 0 THEN No ELSE Directives(G, a.i, Append(acc, Node(G, i, "dir", G.T[i + 1].v, a.n)))

RECURSIVE Type(_, _)
Type(G, i) ==
  LET core == IF IsName(G, i) THEN Leaf(G, i, "named")
              ELSE IF P(G, i, "[")
              THEN LET r == Type(G, i + 1) IN IF r.i # 0 /\ P(G, r.i, "]") THEN Yes(r.i + 1, <<Node(G, i, "listof", "", r.n)>>) ELSE No
              ELSE No
  IN IF core.i # 0 /\ P(G, core.i, "!") THEN Yes(core.i + 1, <<Node(G, i, "nonnull", "", core.n)>>) ELSE core

OptDefault(G, i) ==
  IF ~P(G, i, "=") THEN Yes(i, <<>>)
  ELSE LET r == Value(G, i + 1) IN IF r.i = 0 THEN No ELSE Yes(r.i, <<Node(G, i, "default", "", r.n)>>)

(* ------------------------------------------------------------ executable - *)
RECURSIVE Selections(_, _, _), SelectionSet(_, _), Selection(_, _)
SelectionSet(G, i) ==
  IF ~P(G, i, "{") THEN No
  ELSE LET r == Selections(G, i + 1, <<>>) IN IF r.i = 0 THEN No ELSE Yes(r.i, <<Node(G, i, "sels", "", r.n)>>)
Selections(G, i, acc) ==
  IF P(G, i, "}") THEN (IF acc = <<>> THEN No ELSE Yes(i + 1, acc))
  ELSE LET r == Selection(G, i) IN IF r.i = 0 THEN No ELSE Selections(G, r.i, acc \o r.n)
Selection(G, i) ==
  IF P(G, i, "...")
  THEN IF IsName(G, i + 1) /\ G.T[i + 1].v # "on"
       THEN LET d == Directives(G, i + 2, <<>>) IN IF d.i = 0 THEN No ELSE Yes(d.i, <<Bare("spread", G.T[i + 1].v, d.n)>>)
       ELSE LET on == W(G, i + 1, "on")
                d == IF on THEN (IF IsName(G, i + 2) THEN Directives(G, i + 3, <<>>) ELSE No) ELSE Directives(G, i + 1, <<>>)
                r == IF d.i = 0 THEN No ELSE SelectionSet(G, d.i)
            IN IF r.i = 0 THEN No
               ELSE Yes(r.i, <<Bare("inline", "", (IF on THEN <<Bare("on", "", <<Node(G, i + 2, "named", G.T[i + 2].v, <<>>)>>)>> ELSE <<>>) \o d.n \o r.n)>>)
  ELSE IF ~IsName(G, i) THEN No
  ELSE LET al == P(G, i + 1, ":")
           f == IF al THEN i + 2 ELSE i
           a == IF IsName(G, f) THEN OptArguments(G, f + 1) ELSE No
           d == IF a.i = 0 THEN No ELSE Directives(G, a.i, <<>>)
           r == IF d.i = 0 THEN No ELSE IF P(G, d.i, "{") THEN SelectionSet(G, d.i) ELSE Yes(d.i, <<>>)
       IN IF r.i = 0 THEN No
          ELSE Yes(r.i, <<Node(G, i, "field", G.T[f].v, (IF al THEN <<Node(G, i, "alias", G.T[i].v, <<>>)>> ELSE <<>>) \o a.n \o d.n \o r.n)>>)

RECURSIVE Variables(_, _, _)
Variables(G, i, acc) ==
  IF P(G, i, ")") THEN (IF acc = <<>> THEN No ELSE Yes(i + 1, acc))
  ELSE IF ~(P(G, i, "$") /\ IsName(G, i + 1) /\ P(G, i + 2, ":")) THEN No
  ELSE LET t == Type(G, i + 3)
           d == IF t.i = 0 THEN No ELSE OptDefault(G, t.i)
       IN IF d.i = 0 THEN No ELSE Variables(G, d.i, Append(acc, Node(G, i, "var", G.T[i + 1].v, t.n \o d.n)))

OpKinds == {"query", "mutation", "subscription"}
Operation(G, i) ==
  LET named == IsName(G, i + 1)
      j == IF named THEN i + 2 ELSE i + 1
      v == IF P(G, j, "(") THEN Variables(G, j + 1, <<>>) ELSE Yes(j, <<>>)
      d == IF v.i = 0 THEN No ELSE Directives(G, v.i, <<>>)
      r == IF d.i = 0 THEN No ELSE SelectionSet(G, d.i)
  IN IF r.i = 0 THEN No ELSE Yes(r.i, <<Node(G, i, G.T[i].v, IF named THEN G.T[i + 1].v ELSE "", v.n \o d.n \o r.n)>>)
Fragment(G, i) ==
  IF ~(IsName(G, i + 1) /\ G.T[i + 1].v # "on" /\ W(G, i + 2, "on") /\ IsName(G, i + 3)) THEN No
  ELSE LET d == Directives(G, i + 4, <<>>)
           r == IF d.i = 0 THEN No ELSE SelectionSet(G, d.i)
       IN IF r.i = 0 THEN No
          ELSE Yes(r.i, <<Node(G, i, "fragment", G.T[i + 1].v, <<Bare("on", "", <<Node(G, i + 3, "named", G.T[i + 3].v, <<>>)>>)>> \o d.n \o r.n)>>)

(* ----------------------------------------------------------- type system - *)
OptDesc(G, i) == IF G.T[i].t = "string" THEN Yes(i + 1, <<Node(G, i, "desc", G.T[i].v, <<>>)>>) ELSE Yes(i, <<>>)
RECURSIVE InputDefs(_, _, _, _), FieldDefs(_, _, _), EnumValues(_, _, _), NamesBy(_, _, _, _, _), Roots(_, _, _), Locations(_, _, _)
InputDefs(G, i, close, acc) ==
  IF P(G, i, close) THEN (IF acc = <<>> THEN No ELSE Yes(i + 1, acc))
  ELSE LET q == OptDesc(G, i)
           t == IF IsName(G, q.i) /\ P(G, q.i + 1, ":") THEN Type(G, q.i + 2) ELSE No
           v == IF t.i = 0 THEN No ELSE OptDefault(G, t.i)
           d == IF v.i = 0 THEN No ELSE Directives(G, v.i, <<>>)
       IN IF d.i = 0 THEN No ELSE InputDefs(G, d.i, close, Append(acc, Node(G, i, "inputdef", G.T[q.i].v, q.n \o t.n \o v.n \o d.n)))
OptArgDefs(G, i) == IF P(G, i, "(") THEN InputDefs(G, i + 1, ")", <<>>) ELSE Yes(i, <<>>)
FieldDefs(G, i, acc) ==
  IF P(G, i, "}") THEN (IF acc = <<>> THEN No ELSE Yes(i + 1, acc))
  ELSE LET q == OptDesc(G, i)
           a == IF IsName(G, q.i) THEN OptArgDefs(G, q.i + 1) ELSE No
           t == IF a.i # 0 /\ P(G, a.i, ":") THEN Type(G, a.i + 1) ELSE No
           d == IF t.i = 0 THEN No ELSE Directives(G, t.i, <<>>)
       IN IF d.i = 0 THEN No ELSE FieldDefs(G, d.i, Append(acc, Node(G, i, "fielddef", G.T[q.i].v, q.n \o a.n \o t.n \o d.n)))
EnumValues(G, i, acc) ==
  IF P(G, i, "}") THEN (IF acc = <<>> THEN No ELSE Yes(i + 1, acc))
  ELSE LET q == OptDesc(G, i)
           d == IF IsName(G, q.i) /\ G.T[q.i].v \notin {"true", "false", "null"} THEN Directives(G, q.i + 1, <<>>) ELSE No
       IN IF d.i = 0 THEN No ELSE EnumValues(G, d.i, Append(acc, Node(G, i, "value", G.T[q.i].v, q.n \o d.n)))
(* names separated by sep; a leading separator is allowed                    *)
NamesBy(G, i, sep, k, acc) ==
  LET j == IF P(G, i, sep) THEN i + 1 ELSE i
  IN IF acc # <<>> /\ j = i THEN Yes(i, acc)
     ELSE IF ~IsName(G, j) THEN No
     ELSE NamesBy(G, j + 1, sep, k, Append(acc, Node(G, j, k, G.T[j].v, <<>>)))
Roots(G, i, acc) ==
  IF P(G, i, "}") THEN (IF acc = <<>> THEN No ELSE Yes(i + 1, acc))
  ELSE IF ~(IsName(G, i) /\ G.T[i].v \in OpKinds /\ P(G, i + 1, ":") /\ IsName(G, i + 2)) THEN No
  ELSE Roots(G, i + 3, Append(acc, Node(G, i, "root", G.T[i].v, <<Node(G, i + 2, "named", G.T[i + 2].v, <<>>)>>)))
LocNames == {"QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT",
             "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"}
Locations(G, i, acc) == LET r == NamesBy(G, i, "|", "loc", acc)
                        IN IF r.i # 0 /\ (\A j \in 1..Len(r.n) : r.n[j].n \in LocNames) THEN r ELSE No

Implements(G, i) == IF W(G, i, "implements") THEN NamesBy(G, i + 1, "&", "implements", <<>>) ELSE Yes(i, <<>>)
Body(G, i, kind) ==
  CASE kind \in {"type", "interface"} -> IF P(G, i, "{") THEN FieldDefs(G, i + 1, <<>>) ELSE Yes(i, <<>>)
    [] kind = "enum" -> IF P(G, i, "{") THEN EnumValues(G, i + 1, <<>>) ELSE Yes(i, <<>>)
    [] kind = "input" -> IF P(G, i, "{") THEN InputDefs(G, i + 1, "}", <<>>) ELSE Yes(i, <<>>)
    [] kind = "union" -> IF P(G, i, "=") THEN NamesBy(G, i + 1, "|", "memberof", <<>>) ELSE Yes(i, <<>>)
    [] OTHER -> Yes(i, <<>>)
TypeKinds == {"scalar", "type", "interface", "union", "enum", "input"}
(* i: the keyword; at: the first token of the definition, pre: its description; ext: an extension must say something *)
TypeDef(G, at, i, pre, ext) ==
  LET kind == G.T[i].v
      m == IF ~IsName(G, i + 1) THEN No ELSE IF kind = "type" THEN Implements(G, i + 2) ELSE Yes(i + 2, <<>>)
      d == IF m.i = 0 THEN No ELSE Directives(G, m.i, <<>>)
      r == IF d.i = 0 THEN No ELSE Body(G, d.i, kind)
  IN IF r.i = 0 \/ (ext /\ m.n = <<>> /\ d.n = <<>> /\ r.n = <<>>) THEN No
     ELSE Yes(r.i, <<Node(G, at, IF ext THEN "x" \o kind ELSE kind, G.T[i + 1].v, pre \o m.n \o d.n \o r.n)>>)
SchemaDef(G, at, i, ext) ==
  LET d == Directives(G, i + 1, <<>>)
      r0 == IF d.i = 0 THEN No ELSE IF P(G, d.i, "{") THEN Roots(G, d.i + 1, <<>>) ELSE IF ext THEN Yes(d.i, <<>>) ELSE No
      r == IF r0.i = 0 /\ G.alt /\ ext /\ d.i # 0 /\ P(G, d.i, "{") THEN Yes(d.i, <<>>) ELSE r0
  IN IF r.i = 0 \/ (ext /\ d.n = <<>> /\ r.n = <<>>) THEN No ELSE Yes(r.i, <<Node(G, at, IF ext THEN "xschema" ELSE "schema", "", d.n \o r.n)>>)
DirectiveDef(G, at, i, pre) ==
  IF ~(P(G, i + 1, "@") /\ IsName(G, i + 2)) THEN No
  ELSE LET a == OptArgDefs(G, i + 3)
           r == IF a.i # 0 /\ W(G, a.i, "on") THEN Locations(G, a.i + 1, <<>>) ELSE No
       IN IF r.i = 0 THEN No ELSE Yes(r.i, <<Node(G, at, "directive", G.T[i + 2].v, pre \o a.n \o r.n)>>)

(* -------------------------------------------------------------- document - *)
ExecutableKinds == OpKinds \cup {"short", "fragment"}
Definition(G, i) ==
  LET q == OptDesc(G, i)
      t == G.T[q.i]
  IN IF q.n = <<>> /\ P(G, i, "{")
     THEN LET r == SelectionSet(G, i) IN IF r.i = 0 THEN No ELSE Yes(r.i, <<Node(G, i, "short", "", r.n)>>)
     ELSE IF t.t # "name" THEN No
     ELSE IF t.v \in TypeKinds THEN TypeDef(G, i, q.i, q.n, FALSE)
     ELSE IF t.v = "directive" THEN DirectiveDef(G, i, q.i, q.n)
     ELSE IF q.n # <<>> THEN No
     ELSE IF t.v \in OpKinds THEN Operation(G, i)
     ELSE IF t.v = "fragment" THEN Fragment(G, i)
     ELSE IF t.v = "schema" THEN SchemaDef(G, i, i, FALSE)
     ELSE IF t.v = "extend" /\ IsName(G, i + 1) THEN
          (IF G.T[i + 1].v = "schema" THEN SchemaDef(G, i, i + 1, TRUE)
           ELSE IF G.T[i + 1].v \in TypeKinds THEN TypeDef(G, i, i + 1, <<>>, TRUE) ELSE No)
     ELSE No
RECURSIVE Definitions(_, _, _)
Definitions(G, i, acc) ==
  IF G.T[i].t = "eof" THEN (IF acc = <<>> THEN No ELSE Yes(i, acc))
  ELSE LET r == Definition(G, i) IN IF r.i = 0 THEN No ELSE Definitions(G, r.i, acc \o r.n)
(* the tokens are padded so that looking ahead stays in range                *)
Pad(T) == T \o [j \in 1..5 |-> Tok("end", "", 0, 0)]
Document(T, b) == Definitions([T |-> Pad(T), ls |-> LineStarts(b), alt |-> FALSE], 1, <<>>)
(* Read with the braces after a type system definition as a query of its own, where they are not its body: the grammar allows this, but readers differ. *)
OtherReading(T, b) == Definitions([T |-> Pad(T), ls |-> LineStarts(b), alt |-> TRUE], 1, <<>>).i # 0

(* variables where the grammar has constants: defaults, and directives of type definitions *)
RECURSIVE HasVar(_), ConstBad(_, _)
HasVar(n) == n.k = "varuse" \/ \E j \in 1..Len(n.c) : HasVar(n.c[j])
ConstBad(n, ts) ==
  IF n.k = "default" \/ (ts /\ n.k = "dir") THEN HasVar(n)
  ELSE \E j \in 1..Len(n.c) : ConstBad(n.c[j], ts)
NotConst(defs) == \E j \in 1..Len(defs) : ConstBad(defs[j], defs[j].k \notin ExecutableKinds)
=============================================================================
