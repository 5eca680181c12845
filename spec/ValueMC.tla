------------------------------- MODULE ValueMC ------------------------------
(* All short histories of operations on a small pool.  TLC checks the        *)
(* invariants of ValueOps on each and prints it; they are replayed.          *)
EXTENDS ValueOps, Json, IOUtils, Randomization
Menu == ndJsonDeserialize(IOEnv.MENU)[1]      \* n, depth, start, ops
VARIABLES pool, hist, step
vars == <<pool, hist, step>>
RECURSIVE Run(_, _)
Run(p, j) == IF j > Len(Menu.start) THEN p ELSE Run(Apply(p, Menu.start[j]).p, j + 1)
Init == pool = Run([a \in 1..Menu.n |-> NullV], 1) /\ hist = <<>> /\ step = TRUE
NextIn(js) ==
        /\ Len(hist) < Menu.depth
        /\ \E j \in js :
             /\ Enabled(pool, Menu.ops[j])
             /\ LET q == Apply(pool, Menu.ops[j])
                IN /\ pool' = q.p
                   /\ hist' = Append(hist, j)
                   /\ step' = Keeps(pool, Menu.ops[j], q)
Next == NextIn(1..Len(Menu.ops))
Spec == Init /\ [][Next]_vars
(* for random long histories over a large menu                               *)
Some == NextIn(RandomSubset(5, 1..Len(Menu.ops)))
SimSpec == Init /\ [][Some]_vars
Inv == step /\ \A a \in 1..Menu.n : WellFormed(pool[a])
Emit == Len(hist) = Menu.depth => PrintT("HIST" \o ToJson(hist))
=============================================================================
