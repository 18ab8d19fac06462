----------------------------- MODULE Relations -----------------------------
(***************************************************************************)
(* Properties that relate recorded results to each other: validity of a    *)
(* result list, agreement of algorithms, copies / scaling / merging of     *)
(* weights, renaming of voters and candidates, committee monotonicity and  *)
(* unanimity.  No rule is computed here.                                   *)
(***************************************************************************)
EXTENDS Machines

AsSet(s) == {s[j] : j \in 1..Len(s)}
RawElection(rec) == [m |-> rec.m, n |-> Len(rec.A), A |-> [v \in 1..Len(rec.A) |-> AsSet(rec.A[v])],
                     w |-> rec.w, k |-> rec.k]
Coms(call) == {AsSet(call.out[j]) : j \in 1..Len(call.out)}
Least(a, b) == IF a < b THEN a ELSE b

(* ------------------------------------------------ the documented order of committees *)
(* committees are sorted by their text, e.g. "{0, 10, 2}"; texts are compared as character codes *)
RECURSIVE Dec(_)
Dec(c) == IF c < 10 THEN <<48 + c>> ELSE Dec(c \div 10) \o <<48 + (c % 10)>>
SeqLt(a, b) == \/ \E i \in 1..Least(Len(a), Len(b)) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
               \/ Len(a) < Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
Text(W) == LET ds == SetToSortSeq({Dec(c) : c \in W}, LAMBDA a, b : SeqLt(a, b))
               body == FoldLeft(LAMBDA acc, d : IF acc = <<>> THEN d ELSE acc \o <<44, 32>> \o d, <<>>, ds)
           IN  <<123>> \o body \o <<125>>
InTextOrder(s) == \A j \in 1..(Len(s) - 1) : ~ SeqLt(Text(AsSet(s[j+1])), Text(AsSet(s[j])))

(* ---------------------------------------------------------------- validity *)
(* call 1 of the record is always the unlimited irresolute call of its algorithm, if there is one *)
ValidFails(rec) ==
    LET C == 0 .. (rec.m - 1)
        Full(alg) == {j \in 1..Len(rec.calls) : rec.calls[j].alg = alg /\ ~ rec.calls[j].res /\ rec.calls[j].max = 0
                                                /\ rec.calls[j].err = ""}
        One1(c) ==
          IF c.err # "" THEN {"raised " \o c.err} ELSE
          (IF Len(c.out) = 0 THEN {"empty result"} ELSE {})
          \cup (IF ~ c.types THEN {"result is not a list of sets of integers"} ELSE {})
          \cup (IF \E j \in 1..Len(c.out) : ~ (AsSet(c.out[j]) \subseteq C) THEN {"unknown candidate"} ELSE {})
          \cup (IF \E j \in 1..Len(c.out) : LET s == Cardinality(AsSet(c.out[j]))
                                            IN  s # Len(c.out[j]) \/ (rec.exact /\ s # rec.k) \/ s > rec.k
                THEN {"wrong committee size"} ELSE {})
          \cup (IF Cardinality(Coms(c)) # Len(c.out) THEN {"duplicate committees"} ELSE {})
          \cup (IF ~ InTextOrder(c.out) THEN {"not in the documented order"} ELSE {})
          \cup (IF c.res /\ Len(c.out) # 1 THEN {"resolute: not exactly one committee"} ELSE {})
          \cup UNION {LET a == rec.calls[f] IN
                      (IF ~ (Coms(c) \subseteq Coms(a)) THEN {"returns a committee outside the irresolute result"} ELSE {})
                      \cup (IF c.max # 0 /\ Len(c.out) # Least(c.max, Len(a.out))
                            THEN {"limit: wrong number of committees"} ELSE {}) : f \in Full(c.alg)}
    IN  UNION {{<<j, t>> : t \in One1(rec.calls[j])} : j \in 1..Len(rec.calls)}

(* --------------------------------------------------------------- agreement *)
(* the first irresolute and the first resolute call are the references *)
FirstCall(calls, P(_)) == LET S == {j \in 1..Len(calls) : P(calls[j])} IN IF S = {} THEN 0 ELSE MinOf(S)
AgreeFails(rec) ==
    LET irr == FirstCall(rec.calls, LAMBDA c : ~ c.res)
        rsl == FirstCall(rec.calls, LAMBDA c : c.res)
        Fail(c) ==
          IF c.err # "" THEN {"raised " \o c.err}
          ELSE IF ~ c.res THEN (IF c.out # rec.calls[irr].out THEN {"differs from " \o rec.calls[irr].alg} ELSE {})
          ELSE (IF irr # 0 /\ ~ (Coms(c) \subseteq Coms(rec.calls[irr]))
                THEN {"resolute result not winning according to " \o rec.calls[irr].alg} ELSE {})
               \cup (IF rec.lowest /\ c.out # rec.calls[rsl].out
                     THEN {"resolute result differs from " \o rec.calls[rsl].alg} ELSE {})
    IN  UNION {{<<j, t>> : t \in Fail(rec.calls[j])} : j \in 1..Len(rec.calls)}

(* ------------------------------------------------- related pairs of elections *)
BallotWeight(E, S) == RSum([v \in Voters(E) |-> IF E.A[v] = S THEN E.w[v] ELSE Zero])
Ballots(E) == {E.A[v] : v \in Voters(E)}
Copies(E, X) == /\ E.m = X.m /\ E.k = X.k /\ IsUnit(X) /\ Ballots(E) = Ballots(X)
                /\ \A S \in Ballots(E) : BallotWeight(E, S) = BallotWeight(X, S)
Merged(E, X) == /\ E.m = X.m /\ E.k = X.k /\ Ballots(E) = Ballots(X) /\ X.n = Cardinality(Ballots(X))
                /\ \A S \in Ballots(E) : BallotWeight(E, S) = BallotWeight(X, S)
Scaled(E, X, f) == E.m = X.m /\ E.k = X.k /\ E.A = X.A /\ \A v \in Voters(E) : X.w[v] = RMul(f, E.w[v])
VoterPerm(E, X, p) == /\ E.m = X.m /\ E.k = X.k /\ AsSet(p) = Voters(E) /\ Len(p) = E.n
                      /\ \A v \in Voters(E) : X.A[v] = E.A[p[v]] /\ X.w[v] = E.w[p[v]]
Ren(p, W) == {p[c + 1] : c \in W}
CandPerm(E, X, p) == /\ E.m = X.m /\ E.k = X.k /\ AsSet(p) = Cands(E) /\ Len(p) = E.m /\ E.w = X.w
                     /\ \A v \in Voters(E) : X.A[v] = Ren(p, E.A[v])
Related(rec, E, X) ==
    CASE rec.rel = "copies" -> Copies(E, X)
      [] rec.rel = "merged" -> Merged(E, X)
      [] rec.rel = "scaled" -> Scaled(E, X, rec.f)
      [] rec.rel = "voters" -> VoterPerm(E, X, rec.p)
      [] rec.rel = "cands"  -> CandPerm(E, X, rec.p)
      [] rec.rel = "names"  -> E = X
PairFails(rec) ==
    LET E == RawElection(rec.a)  X == RawElection(rec.b)
        img(W) == IF rec.rel = "cands" THEN Ren(rec.p, W) ELSE W
        Fail(c, d) ==
            (IF c.err # "" THEN {"raised " \o c.err} ELSE {})
            \cup (IF d.err # "" THEN {"related election: raised " \o d.err} ELSE {})
            \cup (IF c.err = "" /\ d.err = "" /\ Coms(d) # {img(W) : W \in Coms(c)}
                  THEN {rec.rel \o ": different winning committees"} ELSE {})
    IN  IF ~ Related(rec, E, X) THEN {<<0, "profile operation: elections are not related as required: " \o rec.rel>>}
        ELSE UNION {{<<j, t>> : t \in Fail(rec.a.calls[j], rec.b.calls[j])} : j \in 1..Len(rec.a.calls)}

(* rules for unit weights only refuse other weights with an error *)
RefuseFails(rec) ==
    IF IsUnit(RawElection(rec)) THEN {<<0, "record with unit weights">>}
    ELSE {<<j, "weights accepted or wrong error">> : j \in {x \in 1..Len(rec.calls) : rec.calls[x].cls \notin AsSet(rec.allowed)}}

(* ------------------------------------------- monotonicity and unanimity *)
(* calls[k] is the resolute result for committee size k *)
MonoFails(rec) ==
    {<<j, "raised " \o rec.calls[j].err>> : j \in {x \in 1..Len(rec.calls) : rec.calls[x].err # ""}}
    \cup {<<j, "committee is not contained in the next larger one">> :
            j \in {x \in 1..(Len(rec.calls) - 1) :
                     /\ rec.calls[x].err = "" /\ rec.calls[x+1].err = ""
                     /\ ~ (AsSet(rec.calls[x].out[1]) \subseteq AsSet(rec.calls[x+1].out[1]))}}
UnanFails(rec) ==
    LET E == RawElection(rec)
        S == E.A[1]
        Bad(W) == IF Cardinality(S) >= E.k THEN ~ (W \subseteq S) ELSE ~ (S \subseteq W)
    IN  IF \E v \in Voters(E) : E.A[v] # S THEN {<<0, "record is not unanimous">>}
        ELSE UNION {IF rec.calls[j].err # "" THEN {<<j, "raised " \o rec.calls[j].err>>}
                    ELSE IF rec.calls[j].out = <<>> \/ \E W \in Coms(rec.calls[j]) : Bad(W)
                         THEN {<<j, "unanimity violated">>} ELSE {} : j \in 1..Len(rec.calls)}
=============================================================================
