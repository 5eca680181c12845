----------------------------- MODULE Base64Trace ----------------------------
(* Decides whether recorded conversions between bytes and Base64 text are    *)
(* those of Values (RFC 4648, section 4, padding optional when reading).     *)
(* A line has items [op, s, b]: the bytes or the text, in hexadecimal and as *)
(* numbers, and r, what each way of converting gave.                         *)
EXTENDS Values, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
VARIABLES i, nok
Line(n) == Lines[n]
Dgts(it) == [j \in 1..Len(it.b) |-> DigitOfByte(it.b[j])]
Right(it, r) ==
  IF it.op = "enc"
  THEN LET d == Enc(it.b, 1)
           e == "=" \o HexOf([j \in 1..Len(d) |-> ByteOfDigit(d[j])], 1)
       IN Len(r) = 6 /\ \A j \in 1..Len(r) : r[j] = (IF j <= 4 THEN e ELSE "=" \o it.s)
  ELSE LET d == TLCEval(Dgts(it))
           w == IF Legal(d) THEN "=" \o HexOf(TLCEval(Dec(d)), 1) ELSE "error"
       IN Len(r) = 6 /\ \A j \in 1..Len(r) : r[j] = w
(* what has been decided about line n: the first wrong item, how many could be converted *)
Judge(L) ==
  LET bad == TLCEval({j \in 1..Len(L.items) : j > Len(L.r) \/ ~Right(L.items[j], L.r[j])})
  IN [bad |-> IF bad = {} THEN 0 ELSE CHOOSE j \in bad : \A m \in bad : j <= m,
      n |-> Cardinality({j \in 1..Len(L.items) : L.items[j].op = "enc" \/ Legal(Dgts(L.items[j]))})]
Init == i = 1 /\ nok = 0
Next == /\ i <= N
        /\ LET r == TLCEval(Judge(Line(i)))
           IN /\ r.bad # 0 => PrintT(<<"REJECT", Line(i).id, r.bad, {"conversion"}>>)
              /\ nok' = nok + r.n
        /\ i' = i + 1
Reached == i <= N \/ (PrintT(<<"DONE", N>>) /\ PrintT(<<"COUNT", nok>>))
=============================================================================
