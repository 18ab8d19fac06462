--------------------------- MODULE SmallElections ---------------------------
(* All small elections up to the order of voters, for the bounded models.    *)
EXTENDS Elections
(* ballots as increasing sequences of codes: every multiset of ballots once  *)
BallotOf(x, m) == {c \in 0..(m - 1) : (x \div (2 ^ c)) % 2 = 1}
Codes(m, n) == {s \in [1..n -> 0..(2 ^ m - 1)] : \A i \in 1..(n - 1) : s[i] <= s[i + 1]}
UnitElections(m, n) ==
    {Election(m, [v \in 1..n |-> BallotOf(s[v], m)], UnitWeights(n), k) : s \in Codes(m, n), k \in 1..m}
WeightedElections(m, n, ws) ==
    {Election(m, [v \in 1..n |-> BallotOf(s[v], m)], w, k) : s \in Codes(m, n), w \in ws, k \in 1..m}
Small    == UNION {UnitElections(m, n) : m \in 1..3, n \in 1..3} \cup WeightedElections(3, 2, {<<R(2), One>>, <<One, RFrac(1, 2)>>})
Deeper   == Small \cup UnitElections(3, 4) \cup UnitElections(4, 3) \cup WeightedElections(3, 2, [1..2 -> {One, R(2), RFrac(1, 2)}])
                  \cup WeightedElections(3, 3, {<<R(2), One, One>>, <<One, R(2), RFrac(1, 2)>>, <<R(3), R(2), R(2)>>})
=============================================================================
