--------------------------- MODULE Apportionment ---------------------------
(***************************************************************************)
(* Party-list profiles: any two ballots are equal or disjoint, so that an    *)
(* election is a contest of parties for seats.  Divisor methods as a state   *)
(* machine (seat after seat to a party with the highest quotient) and by     *)
(* their characterisation, quota methods, and what the approval-based rules  *)
(* must do on such profiles.                                                 *)
(***************************************************************************)
EXTENDS Relations

IsPartyList(E) == \A u, v \in Voters(E) : E.A[u] = E.A[v] \/ E.A[u] \cap E.A[v] = {}
(* the parties: the non-empty ballots, and the unapproved candidates as a party without votes *)
Rest(E) == Cands(E) \ Approved(E)
Parties(E) == (Ballots(E) \ {{}}) \cup (IF Rest(E) = {} THEN {} ELSE {Rest(E)})
Votes(E, p) == Weight(E, {v \in Voters(E) : E.A[v] = p /\ p # {}})
SeatsOf(E, W) == [p \in Parties(E) |-> Cardinality(W \cap p)]
Caps(E) == [p \in Parties(E) |-> Cardinality(p)]

(* seat distributions that respect the sizes of the parties *)
RECURSIVE Distribs(_, _, _)
Distribs(ps, cap, k) ==
    IF ps = {} THEN (IF k = 0 THEN {<<>>} ELSE {})
    ELSE LET p == CHOOSE x \in ps : TRUE IN
         UNION {{(p :> s) @@ f : f \in Distribs(ps \ {p}, cap, k - s)} : s \in 0..Least(cap[p], k)}
SumSeats(s) == LET RECURSIVE f(_)
                   f(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN s[x] + f(D \ {x})
               IN  f(DOMAIN s)

(* ------------------------------------------------------- divisor methods *)
(* quotient of a party with votes v for its i-th seat; sf gives the reciprocal divisors *)
Quotient(sf, v, i) == RMul(v, Marg(sf, i))
(* a seat distribution is an outcome iff no seat can move to a party with a higher claim to it *)
IsDivisor(s, votes, cap, sf) ==
    \A p, q \in DOMAIN s : p # q /\ s[p] > 0 /\ s[q] < cap[q] =>
        RLe(Quotient(sf, votes[q], s[q] + 1), Quotient(sf, votes[p], s[p]))
(* the same as a machine: one seat after the other to a party with the highest quotient *)
RECURSIVE DivisorRun(_, _, _, _, _)
DivisorRun(S, votes, cap, sf, k) ==
    IF k = 0 THEN S
    ELSE DivisorRun(UNION {{[s EXCEPT ![p] = @ + 1] :
                              p \in ArgMax({q \in DOMAIN s : s[q] < cap[q]}, LAMBDA q : Quotient(sf, votes[q], s[q] + 1))} : s \in S},
                    votes, cap, sf, k - 1)

(* --------------------------------------------------------- quota methods *)
Share(E, p) == RDiv(RMul(R(E.k), Votes(E, p)), TotalWeight(E))       \* exact seat claim
LowerQuota(E, s) == \A p \in DOMAIN s : p # Rest(E) => s[p] >= Least(Cardinality(p), RFloor(Share(E, p)))
(* largest remainders (Hare quota); the parties are large enough and everybody votes for one *)
LRApplies(E) == \A p \in Ballots(E) : p # {} /\ Cardinality(p) >= E.k
IsLargestRemainder(E, s) ==
    LET rem == [p \in DOMAIN s |-> IF p = Rest(E) THEN Zero ELSE RSub(Share(E, p), R(RFloor(Share(E, p))))]
        low == [p \in DOMAIN s |-> IF p = Rest(E) THEN 0 ELSE RFloor(Share(E, p))]
    IN  /\ \A p \in DOMAIN s : s[p] \in {low[p], low[p] + 1}
        /\ \A p, q \in DOMAIN s : s[p] > low[p] /\ s[q] = low[q] => RLe(rem[q], rem[p])
        /\ \A p \in DOMAIN s : s[p] > low[p] => rem[p] # Zero

(* ------------------------------------------------------- what rules must do *)
(* divisor  the winning committees are exactly those with seats by the divisor method          *)
(* subset   all winning committees have such seats                                             *)
(* minload  the largest load (seats per vote) of a party is the smallest possible               *)
(* lr       exactly the committees with seats by largest remainders                            *)
(* lower    every party gets at least its lower quota                                          *)
MaxLoad(E, s) == RMaxS({Zero} \cup {RDiv(R(s[p]), Votes(E, p)) : p \in {q \in DOMAIN s : q # Rest(E)}})
SeatsFit(E, method, sf, s) ==
    LET votes == [p \in Parties(E) |-> Votes(E, p)] IN
    CASE method \in {"divisor", "subset"} -> IsDivisor(s, votes, Caps(E), sf)
      [] method = "lr"    -> IsLargestRemainder(E, s)
      [] method = "lower" -> LowerQuota(E, s)
      [] method = "minload" -> (Cardinality(Approved(E)) >= E.k =>
             /\ Rest(E) \in DOMAIN s => s[Rest(E)] = 0
             /\ \E t \in Distribs({p \in Parties(E) : p # Rest(E)}, Caps(E), E.k) :
                   IsDivisor(t, [p \in DOMAIN t |-> votes[p]], Caps(E), SF("pav")) /\ MaxLoad(E, t) = MaxLoad(E, s))
Exact(method) == method \in {"divisor", "lr"}
Outcomes4(E, method, sf) == {s \in Distribs(Parties(E), Caps(E), E.k) : SeatsFit(E, method, sf, s)}
RECURSIVE Binom(_, _)
Binom(n, i) == IF i = 0 THEN 1 ELSE (Binom(n, i - 1) * (n - i + 1)) \div i
RECURSIVE NumberWith(_, _, _)      \* committees with these seats
NumberWith(s, cap, ps) == IF ps = {} THEN 1 ELSE LET p == CHOOSE x \in ps : TRUE IN Binom(cap[p], s[p]) * NumberWith(s, cap, ps \ {p})
RECURSIVE NumberAll(_, _)
NumberAll(S, cap) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN NumberWith(s, cap, DOMAIN s) + NumberAll(S \ {s}, cap)

PartyFails(rec) ==
    LET E == RawElection(rec)
        sf == SFp(rec.sf, rec.p)
        seats(c) == {SeatsOf(E, W) : W \in Coms(c)}
        One1(c) ==
            IF c.err # "" THEN {"raised " \o c.err} ELSE
            (IF \E s \in seats(c) : SumSeats(s) # E.k \/ ~ SeatsFit(E, rec.method, sf, s) THEN {"seats not by " \o rec.method} ELSE {})
            \cup (IF c.out = <<>> THEN {"no committee"} ELSE {})
            \cup (IF Exact(rec.method) /\ ~ c.res /\ c.max = 0
                     /\ Cardinality(Coms(c)) # NumberAll(Outcomes4(E, rec.method, sf), Caps(E))
                  THEN {"not all committees with these seats"} ELSE {})
    IN  IF ~ IsPartyList(E) \/ (rec.method = "lr" /\ ~ LRApplies(E)) THEN {<<0, "record is no party-list election">>}
        ELSE UNION {{<<j, t>> : t \in One1(rec.calls[j])} : j \in 1..Len(rec.calls)}
=============================================================================
