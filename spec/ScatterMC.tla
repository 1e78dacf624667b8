------------------------------ MODULE ScatterMC ------------------------------
(* Spheres of a substance in a beam.  A caller asks for the scattering of a   *)
(* list of sizes, in any order and with repetitions, one substance and one    *)
(* beam after another; every sphere of the answer is one of the list, at its  *)
(* place, and scatters as it does alone.                                      *)
EXTENDS Num, TLC
CONSTANTS Sizes, Beams, MaxLen, Steps, Bug
\* the scattering of a sphere: any function that tells spheres and beams apart
Efficiency(s, b) == 100 * b + s * s
Lists == UNION {[1..l -> Sizes] : l \in 1..MaxLen}
Least(q) == CHOOSE m \in ToSet(q) : \A x \in ToSet(q) : m <= x
\* evenly spread sizes between the ends of the list
Spread(q) == [j \in 1..Len(q) |-> IF Len(q) = 1 THEN Least(q) ELSE Least(q) + ((j - 1) * (SeqMax(q) - Least(q))) \div (Len(q) - 1)]
Sorted(q) == CHOOSE r \in [1..Len(q) -> ToSet(q)] : \A x \in ToSet(q) :
               /\ Cardinality({j \in 1..Len(q) : r[j] = x}) = Cardinality({j \in 1..Len(q) : q[j] = x})
               /\ \A j \in 2..Len(q) : r[j - 1] <= r[j]
VARIABLES asked, answer, memo, n
vars == <<asked, answer, memo, n>>
Init == asked = [sizes |-> <<>>, beam |-> 1] /\ answer = <<>> /\ memo = {} /\ n = 0
Remembered(s, b) == {m \in memo : m[1] = s}
Eff(s, b) == IF Bug = "memo" /\ Remembered(s, b) # {} THEN (CHOOSE m \in Remembered(s, b) : TRUE)[2] ELSE Efficiency(s, b)
Ask(q, b) ==
  LET grid == CASE Bug = "spread" -> Spread(q) [] Bug = "sorted" -> Sorted(q) [] OTHER -> q
      out == [j \in 1..Len(q) |-> [size |-> IF Bug = "sorted_under_old_names" THEN q[j] ELSE grid[j],
                                   eff |-> Eff(IF Bug = "sorted_under_old_names" THEN Sorted(q)[j] ELSE grid[j], b)]]
      area(s) == s * s
  IN /\ asked' = [sizes |-> q, beam |-> b]
     /\ answer' = [j \in 1..Len(q) |-> [size |-> out[j].size, eff |-> out[j].eff,
                                        sec |-> (IF Bug = "area_of_asked" /\ j > 1 THEN area(q[1]) ELSE area(out[j].size)) * out[j].eff]]
     /\ memo' = memo \cup {<<q[j], out[j].eff>> : j \in 1..Len(q)}
Next == n < Steps /\ n' = n + 1 /\ \E q \in Lists, b \in Beams : Ask(q, b)
Spec == Init /\ [][Next]_vars
SizesAsAsked == [j \in 1..Len(answer) |-> answer[j].size] = asked.sizes
Alone == \A j \in 1..Len(answer) : answer[j].eff = Efficiency(answer[j].size, asked.beam)
Sections == \A j \in 1..Len(answer) : answer[j].sec = answer[j].size * answer[j].size * answer[j].eff
\* the answer to a list is the answers to its members
ByItself == \A j \in 1..Len(answer) : answer[j].eff = Efficiency(asked.sizes[j], asked.beam)
===============================================================================
