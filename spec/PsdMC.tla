-------------------------------- MODULE PsdMC --------------------------------
(* Size distributions derived class by class from water, number, air density, *)
(* particle density and shape.  Worlds are built from their slope, so that    *)
(* the right answer exists; the machine has to find it.  Bug: typical         *)
(* mistakes.                                                                  *)
EXTENDS Psd
CONSTANTS NC, L, Bug
VARIABLES w, k, out, d0
vars == <<w, k, out, d0>>
Cells == {[lam |-> l, mu |-> m, d |-> d, air |-> a, wet |-> x] :
            l \in 1..L, m \in {0, 1}, d \in {1, 2}, a \in {1, 2}, x \in BOOLEAN}
\* number and water of a cell with that slope (lam^3 air particles, so that everything is whole)
Num(c) == c.lam * c.lam * c.lam * c.air
Wat(c) == IF c.wet THEN c.d * Third(c.mu) ELSE 0
Init == /\ w \in [1..NC -> Cells] /\ k = 1 /\ out = <<>> /\ d0 = 1
\* the slope is sought among the possible ones; 0: none
Find(q, air, d, n, mu) == IF q = 0 THEN 0 ELSE
  LET S == {l \in 1..(2 * L) : Holds3(q, air, d, n, mu, l)} IN IF S = {} THEN -1 ELSE CHOOSE l \in S : TRUE
Next == /\ k <= NC /\ k' = k + 1 /\ d0' = w[k].d
        /\ LET c == w[k]
               air == IF Bug = "per_mass" THEN 1 ELSE c.air
               d == IF Bug = "stale_density" THEN d0 ELSE c.d
               mu == IF Bug = "shape" THEN 0 ELSE c.mu
           IN out' = Append(out, IF Bug = "dry" /\ ~c.wet THEN 1 ELSE Find(Wat(c), air, d, Num(c), mu))
        /\ UNCHANGED w
Spec == Init /\ [][Next]_vars
Closure == \A i \in DOMAIN out : w[i].wet => out[i] = w[i].lam
Empty == \A i \in DOMAIN out : ~w[i].wet => out[i] = 0
===============================================================================
