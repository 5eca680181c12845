------------------------------- MODULE SubsMC -------------------------------
(* All short histories of subscribe, unsubscribe and deliver over a small    *)
(* menu of documents and events.  TLC checks the invariants of the machine   *)
(* of Subs on every one of them and prints the histories, which are then     *)
(* replayed into the library and judged by SubsTrace.                        *)
EXTENDS Subs, Json, IOUtils, TLC
Menu == ndJsonDeserialize(IOEnv.MENU)[1]     \* world, docs, subs: [di, vars], events: [field, form, args, dirs]
Depth == Menu.depth
VARIABLES live, hist, made, last
vars == <<live, hist, made, last>>

W == Menu.world
Reg(m, sid, key) == Registration(W, "Subscription", Menu.docs[Menu.subs[m].di], 1, Menu.subs[m].vars, "", sid, key)
Fresh0(l) == CHOOSE k \in 0..Len(l) : ~Live(l, k) /\ \A j \in 0..(k - 1) : Live(l, j)
SidOf(n) == "r" \o ToString(n)

Init == live = <<>> /\ hist = <<>> /\ made = 0 /\ last = [op |-> "", before |-> <<>>, to |-> <<>>]
Subscribe(m) ==
  LET sid == SidOf(made)
  IN /\ live' = Insert(live, Reg(m, sid, Fresh0(live)))
     /\ made' = made + 1
     /\ hist' = Append(hist, [op |-> "subscribe", n |-> m, sid |-> sid])
     /\ last' = [op |-> "subscribe", before |-> live, to |-> <<>>]
(* n is the number of an earlier registration, live or gone, or made: one that never was *)
Unsubscribe(n) ==
  /\ live' = SelectSeq(live, LAMBDA r : r.sid # SidOf(n))
  /\ hist' = Append(hist, [op |-> "unsubscribe", n |-> n, sid |-> SidOf(n)])
  /\ made' = made
  /\ last' = [op |-> "unsubscribe", before |-> live, to |-> <<>>]
Deliver(e) ==
  /\ live' = live /\ made' = made
  /\ hist' = Append(hist, [op |-> "deliver", n |-> e, sid |-> ""])
  /\ last' = [op |-> "deliver", before |-> live, to |-> Recipients(live, Menu.events[e])]
Next == /\ Len(hist) < Depth
        /\ \/ \E m \in 1..Len(Menu.subs) : Subscribe(m)
           \/ \E n \in 0..made : Unsubscribe(n)
           \/ \E e \in 1..Len(Menu.events) : Deliver(e)
Spec == Init /\ [][Next]_vars

(* keys are distinct and live registrations are kept in key order            *)
UniqueKeys == \A a, b \in 1..Len(live) : a < b => live[a].key < live[b].key
(* a registration is live iff it was made and not unsubscribed since         *)
LiveIsHistory ==
  \A n \in 0..(made - 1) :
    (\E a \in 1..Len(live) : live[a].sid = SidOf(n)) <=>
      ~\E j \in 1..Len(hist) : /\ hist[j].op = "unsubscribe" /\ hist[j].n = n
                               /\ \E b \in 1..(j - 1) : hist[b].op = "subscribe" /\ hist[b].sid = SidOf(n)
(* an event reaches live registrations only, each once, in key order, and all it matches *)
Reaches ==
  last.op = "deliver" =>
    /\ \A a \in 1..Len(last.to) : \E b \in 1..Len(last.before) : last.to[a] = last.before[b]
    /\ \A a, b \in 1..Len(last.to) : a < b => last.to[a].key < last.to[b].key
    /\ \A b \in 1..Len(last.before) :
         Matches(last.before[b], Menu.events[hist[Len(hist)].n]) <=> \E a \in 1..Len(last.to) : last.to[a].sid = last.before[b].sid
(* other registrations are not affected by an unsubscribe                    *)
OthersStay == last.op = "unsubscribe" => \A b \in 1..Len(last.before) : last.before[b].sid = hist[Len(hist)].sid \/ Live(live, last.before[b].key)
Inv == UniqueKeys /\ LiveIsHistory /\ Reaches /\ OthersStay
(* complete histories end with an event: print them                          *)
Emit == Len(hist) = Depth /\ hist[Depth].op = "deliver" =>
          PrintT("HIST" \o ToJson([h |-> [j \in 1..Depth |-> <<hist[j].op, ToString(hist[j].n), hist[j].sid>>], to |-> [j \in 1..Len(last.to) |-> last.to[j].sid]]))
=============================================================================
