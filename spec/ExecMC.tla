------------------------------- MODULE ExecMC -------------------------------
(* Small requests in full.  TLC explores every order in which the event      *)
(* machine of Exec lets a plan be executed and checks the machine itself;    *)
(* and it enumerates all schedules of the requests - how each result becomes *)
(* available, in which order held results are released, the launch policy -  *)
(* which are then replayed into the library and judged by ExecTrace.         *)
EXTENDS Exec, Json, IOUtils
Menu == ndJsonDeserialize(IOEnv.MENU)[1]
(* items: [world, doc, root, gates], gates the paths of the results whose    *)
(* availability varies; hows, launches                                       *)
Hows == Elems(Menu.hows)
Launches == Elems(Menu.launches)
Item(m) == Menu.items[m]
PlanOf(it) ==
  LET op == it.doc.ops[1]
  IN OpPlan(it.world, it.world.objs, it.root, it.doc, op, EmptyMap, IF op.type = "mutation" THEN "Mutation" ELSE "Query", "")

VARIABLES m, P, gates, mode, st, hist, how, order, launch
vars == <<m, P, gates, mode, st, hist, how, order, launch>>
View == <<m, mode, hist, how, order, launch>>
NG == Len(gates)

Init == /\ m \in 1..Len(Menu.items) /\ mode \in {"run", "plan"}
        /\ P = PlanOf(Item(m)) /\ gates = Item(m).gates
        /\ st = Fresh(P) /\ hist = <<>> /\ how = <<>> /\ order = <<>> /\ launch = ""

(* ------------------------------------------------------------- execution - *)
Sets == 1..Len(P.s)
Begin(i) == CanBegin(P, st, i) /\ st' = DoBegin(st, i) /\ hist' = Append(hist, <<"begin", i>>)
Call(i) == CanCall(P, st, i) /\ st' = DoCall(P, st, i) /\ hist' = Append(hist, <<"call", i>>)
End(i) == CanEnd(P, st, i) /\ st' = DoEnd(st, i) /\ hist' = Append(hist, <<"end", i>>)
Run == /\ mode = "run"
       /\ \E i \in Sets : Begin(i) \/ Call(i) \/ End(i)
       /\ UNCHANGED <<m, P, gates, mode, how, order, launch>>

(* -------------------------------------------------------------- schedules - *)
Held == {g \in 1..Len(how) : how[g] = "gate"}
Choose == /\ mode = "plan" /\ Len(how) < NG
          /\ \E h \in Hows : how' = Append(how, h)
          /\ UNCHANGED <<m, P, gates, mode, st, hist, order, launch>>
Release == /\ mode = "plan" /\ Len(how) = NG /\ Len(order) < Cardinality(Held)
           /\ \E g \in Held \ Elems(order) : order' = Append(order, g)
           /\ UNCHANGED <<m, P, gates, mode, st, hist, how, launch>>
Launch == /\ mode = "plan" /\ Len(how) = NG /\ Len(order) = Cardinality(Held) /\ launch = ""
          /\ launch' \in Launches
          /\ UNCHANGED <<m, P, gates, mode, st, hist, how, order>>
Next == Run \/ Choose \/ Release \/ Launch
Spec == Init /\ [][Next]_vars

(* ----------------------------------------- the machine does what it should - *)
Pos(kind, i) == {j \in 1..Len(hist) : hist[j] = <<kind, i>>}
(* hooks bracket the calls of their object, exactly once                      *)
Bracketed ==
  \A i \in Sets :
    /\ Cardinality(Pos("begin", i)) <= 1 /\ Cardinality(Pos("end", i)) <= 1
    /\ \A j \in Pos("call", i) : (\A b \in Pos("begin", i) : b < j) /\ Pos("begin", i) # {} /\ (\A e \in Pos("end", i) : j < e)
(* everything below a root field of a mutation comes before the next root field, and nothing of it before its own *)
RootOfEvent(j) == IF hist[j][2] = 1
                  THEN IF hist[j][1] = "call" THEN Cardinality({k \in 1..j : hist[k] = <<"call", 1>>}) ELSE 0
                  ELSE RootPos(P, P.s[hist[j][2]].root)
Serial == P.ctx = "Mutation" => \A a, b \in 1..Len(hist) : (a < b /\ RootOfEvent(a) # 0 /\ RootOfEvent(b) # 0) => RootOfEvent(a) <= RootOfEvent(b)
(* it never gets stuck before everything has been done, and what was done is the plan *)
Complete1 ==
  mode = "run" /\ ~(\E i \in Sets : CanBegin(P, st, i) \/ CanCall(P, st, i) \/ CanEnd(P, st, i)) =>
    /\ AllDone(P, st)
    /\ \A i \in Sets : ~P.s[i].opt => Cardinality(Pos("call", i)) = Len(P.s[i].calls)
Inv == mode = "run" => Bracketed /\ Serial /\ Complete1
(* complete schedules: print them                                             *)
Emit == launch # "" => PrintT("SCHED" \o ToJson([m |-> m, how |-> how, order |-> [j \in 1..Len(order) |-> gates[order[j]]], launch |-> launch]))
=============================================================================
