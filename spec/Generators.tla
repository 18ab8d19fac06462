----------------------------- MODULE Generators -----------------------------
(* Random generation of profiles as a nondeterministic machine.              *)
(*                                                                           *)
(* The state is the sequence of ballots generated so far; the hidden part is *)
(* chosen in the first step: the central ballot, the groups of the disjoint  *)
(* model, or the positions of voters and candidates.  Next appends a ballot  *)
(* of the set Ballots(c, j): what the model permits for voter j after the    *)
(* ballots that exist already.  A recorded profile is accepted iff it is a   *)
(* complete behaviour of this machine.  What only holds with probability is  *)
(* judged on large samples, as an interval of 8 standard deviations.         *)
EXTENDS Integers, Sequences, FiniteSets, Rationals, TLC

GS(s) == {s[j] : j \in 1..Len(s)}
Ids == {"IC fixed-size", "IC", "Truncated Mallows", "Urn fixed-size", "Urn", "Truncated Urn", "Euclidean VCR",
        "Euclidean fixed-size", "Euclidean Threshold", "Resampling", "Disjoint Resampling", "Noise"}
Spatial == {"Euclidean VCR", "Euclidean fixed-size", "Euclidean Threshold"}
Sized == {"IC fixed-size", "Truncated Mallows", "Urn fixed-size", "Truncated Urn", "Euclidean fixed-size"}
Urns == {"Urn fixed-size", "Urn", "Truncated Urn"}
G0 == R(0)
G1 == R(1)
InUnit(x) == RLe(G0, x) /\ RLe(x, G1)
CandsOf(c) == 0..(c.m - 1)
(* parameters: integers setsize, groups; rationals p, phi, replace, threshold; "" if absent *)

(* ------------------------------------------------------------- refusals *)
Dim(pts) == IF Len(pts) = 0 THEN 0 ELSE Len(pts[1])
DimOfDist(name) == CASE name \in {"1d_interval", "1d_gaussian", "1d_gaussian_interval"} -> 1
                     [] name \in {"2d_disc", "2d_square", "2d_gaussian", "2d_gaussian_disc"} -> 2
                     [] name = "3d_cube" -> 3
                     [] OTHER -> -1
(* one side of a spatial model: [given |-> points or <<>>, dist |-> name or "", ...] *)
SideDim(s) == IF s.dist # "" THEN DimOfDist(s.dist) ELSE Dim(s.given)
SideOK(s, count) == IF s.dist # "" THEN DimOfDist(s.dist) > 0 /\ Len(s.center) = DimOfDist(s.dist) ELSE Len(s.given) = count /\ count > 0
RadiusOK(r, count) == r.one \/ Len(r.v) = count
Valid(c) ==
    /\ c.fn \in Ids
    /\ c.n >= 1 /\ c.m >= 1
    /\ c.fn \in Sized => c.setsize >= 0 /\ c.setsize <= c.m
    /\ c.fn \in {"IC", "Urn", "Resampling", "Disjoint Resampling", "Noise"} => InUnit(c.p)
    /\ c.fn \in {"Resampling", "Noise", "Truncated Mallows"} \/ (c.fn = "Disjoint Resampling" /\ c.phi # "") => InUnit(c.phi)
    /\ c.fn = "Disjoint Resampling" => RLe(RMul(c.p, R(c.groups)), G1) /\ c.groups >= 1
    /\ c.fn = "Noise" => c.dist \in {"hamming", "jaccard", "zelinka", "bunke-shearer"}
    /\ c.fn \in Urns => RLe(G0, c.replace)
    /\ c.fn = "Euclidean Threshold" => RLe(G1, c.threshold)
    /\ c.fn \in Spatial => /\ SideOK(c.vs, c.n) /\ SideOK(c.cs, c.m) /\ SideDim(c.vs) = SideDim(c.cs)
                           /\ c.fn = "Euclidean VCR" => RadiusOK(c.vr, c.n) /\ RadiusOK(c.cr, c.m)
Refusals(c) == IF c.fn = "" THEN {"KeyError"}
               ELSE IF c.fn \notin Ids \/ (c.fn = "Noise" /\ c.dist \notin {"hamming", "jaccard", "zelinka", "bunke-shearer"}) THEN {"ValueError"}
               ELSE {"ValueError", "TypeError", "ZeroDivisionError"}

(* ------------------------------------------------------------- geometry *)
Sq(x) == RMul(x, x)
Dist2(a, b) == RSum([i \in 1..Len(a) |-> Sq(RSub(a[i], b[i]))])
(* slack for positions drawn by the generator: comparisons closer than 1e-9 are not judged *)
Slack(c) == IF c.exact THEN G1 ELSE RAdd(G1, RNorm("1/1000000000"))
Must(c, d2, r2)    == RLe(RMul(d2, Slack(c)), r2)
MustNot(c, d2, r2) == RLt(RMul(r2, Slack(c)), d2)
Radius(r, j) == IF r.one THEN r.v[1] ELSE r.v[j]
Reach2(c, v, x) == CASE c.fn = "Euclidean VCR" -> Sq(RAdd(Radius(c.vr, v), Radius(c.cr, x + 1)))
                     [] OTHER -> RMul(Sq(c.threshold), RMinS({Dist2(c.V[v], c.C[y]) : y \in 1..c.m}))
SpatialOK(c, v, B) ==
    IF c.fn = "Euclidean fixed-size"
    THEN Cardinality(B) = c.setsize
         /\ ~ \E a \in B, b \in CandsOf(c) \ B : RLt(RMul(Dist2(c.V[v], c.C[b + 1]), Slack(c)), Dist2(c.V[v], c.C[a + 1]))
    ELSE /\ \A x \in CandsOf(c) : LET d2 == Dist2(c.V[v], c.C[x + 1])  r2 == Reach2(c, v, x) IN
                 (Must(c, d2, r2) => x \in B) /\ (MustNot(c, d2, r2) => x \notin B)
         /\ c.fn = "Euclidean Threshold" => B # {}

(* the support of a point distribution: [dist, center, sigma, width] *)
Half(w) == RDiv(w, R(2))
InSupport(s, pt) ==
    LET tol == RNorm("1/1000000000000")
        d(i) == RSub(pt[i], s.center[i])
        abs(x) == IF RLt(x, G0) THEN RSub(G0, x) ELSE x IN
    /\ Len(pt) = DimOfDist(s.dist)
    /\ s.dist \in {"1d_interval", "1d_gaussian_interval", "2d_square", "3d_cube"} =>
           \A i \in 1..Len(pt) : RLe(abs(d(i)), RAdd(Half(s.width), tol))
    /\ s.dist \in {"2d_disc", "2d_gaussian_disc"} => RLe(Dist2(pt, s.center), RAdd(Sq(Half(s.width)), tol))
    \* 60 standard deviations
    /\ s.dist \in {"1d_gaussian", "2d_gaussian", "1d_gaussian_interval", "2d_gaussian_disc"} =>
           \A i \in 1..Len(pt) : RLe(abs(d(i)), RAdd(RMul(R(60), s.sigma), tol))
SideFails(s, pts, count, what) ==
    (IF Len(pts) # count THEN {what \o ": wrong number of points"} ELSE {})
    \cup (IF s.dist = "" /\ pts # s.given THEN {what \o ": not the given points"} ELSE {})
    \cup (IF s.dist # "" /\ \E j \in 1..Len(pts) : ~ InSupport(s, pts[j]) THEN {what \o ": a point outside the support of its distribution"} ELSE {})

(* ------------------------------------------------------------- one ballot *)
Central(c) == 0..(RFloor(RMul(c.p, R(c.m))) - 1)
Never(x) == x # "" /\ RLe(x, G0)
Always(x) == x # "" /\ RLe(G1, x)
Huge(x) == RLe(RNorm("1000000000000000"), x)           \* a fresh ballot has probability < 1e-12
Permitted(c, j, prev, B) ==
    CASE c.fn = "IC" -> (Never(c.p) => B = {}) /\ (Always(c.p) => B = CandsOf(c))
      [] c.fn = "IC fixed-size" -> Cardinality(B) = c.setsize
      [] c.fn = "Truncated Mallows" -> Cardinality(B) = c.setsize /\ (Never(c.phi) => prev = {} \/ B \in prev)
      [] c.fn \in Urns -> /\ c.fn # "Urn" => Cardinality(B) = c.setsize
                          /\ c.fn = "Urn" => (Never(c.p) => B = {}) /\ (Always(c.p) => B = CandsOf(c))
                          /\ Huge(c.replace) => prev = {} \/ B \in prev
      [] c.fn = "Resampling" -> /\ Never(c.phi) => B = Central(c)
                                /\ Always(c.p) => B = CandsOf(c)
                                /\ Never(c.p) => B = {}
      [] c.fn = "Noise" -> Never(c.phi) => B = Central(c)
      [] c.fn = "Disjoint Resampling" ->
              /\ Never(c.phi) => /\ \A X \in prev : X = B \/ X \cap B = {}
                                 /\ Cardinality(prev \cup {B}) <= c.groups
              /\ (Always(c.phi) /\ Never(c.p)) => B = {}
              /\ (Always(c.phi) /\ Always(c.p)) => B = CandsOf(c)
      [] c.fn \in Spatial -> SpatialOK(c, j, B)

ProfileFails(c) ==
    LET B == [j \in 1..Len(c.ballots) |-> GS(c.ballots[j])] IN
    (IF Len(B) # c.n THEN {"wrong number of voters"} ELSE {})
    \cup (IF c.cands # c.m THEN {"wrong number of candidates"} ELSE {})
    \cup (IF \E j \in 1..Len(B) : ~ (B[j] \subseteq CandsOf(c)) THEN {"a ballot approves something that is not a candidate"} ELSE {})
    \cup (IF ~ c.unit THEN {"a voter does not have weight 1"} ELSE {})
    \cup (IF c.texts # c.texts2 THEN {"the ballots do not print as candidate numbers"} ELSE {})
    \cup (IF c.fn \in Spatial THEN SideFails(c.vs, c.V, c.n, "voters") \cup SideFails(c.cs, c.C, c.m, "candidates") ELSE {})
    \cup (IF Len(B) = c.n /\ c.cands = c.m /\ (c.fn \in Spatial => Len(c.V) = c.n /\ Len(c.C) = c.m)
          THEN (IF \E j \in 1..Len(B) : ~ Permitted(c, j, {B[x] : x \in 1..(j - 1)}, B[j])
                THEN {"a ballot that the model does not permit"} ELSE {})
          ELSE {})

(* ------------------------------------------------------------- frequencies *)
(* a count of N independent trials of probability q: within 8 standard deviations (+ 20 for the Poisson range) *)
Plausible(cnt, N, q) ==
    LET mean == RMul(R(N), q)
        dev  == RSub(R(cnt), mean)
        abs  == IF RLt(dev, G0) THEN RSub(G0, dev) ELSE dev
        over == RSub(abs, R(20)) IN
    RLe(over, G0) \/ RLe(Sq(over), RMul(R(64), RMul(mean, RSub(G1, q))))
RECURSIVE GPow(_, _)
GPow(x, e) == IF e = 0 THEN G1 ELSE RMul(x, GPow(x, e - 1))
(* noise: probability proportional to phi^distance; phi = root^12, so that fractional distances are powers of root *)
Dist12(name, X, Y) ==
    LET i == Cardinality(X \cap Y)
        u == Cardinality(X \cup Y)
        a == Cardinality(X)
        b == Cardinality(Y)
        mx == IF a > b THEN a ELSE b IN
    CASE name = "hamming" -> 12 * (u - i)
      [] name = "zelinka" -> 12 * (mx - i)
      [] name = "jaccard" -> 12 - (12 * i) \div u
      [] name = "bunke-shearer" -> 12 - (12 * i) \div mx
NoiseWeight(c, X) == GPow(c.root, Dist12(c.dist, Central(c), X))
(* the probability of the event counted in c.counts[j] *)
Prob(c, j) ==
    CASE c.ev = "candidate" ->            \* voters approving candidate j - 1
            (CASE c.fn \in {"IC", "Urn"} -> c.p
               [] c.fn \in {"IC fixed-size", "Urn fixed-size", "Truncated Urn"} -> RFrac(c.setsize, c.m)
               [] c.fn = "Truncated Mallows" ->    \* setsize 1, counts in decreasing order: the j-th candidate of the central ranking is ranked first
                     RDiv(GPow(c.phi, j - 1), RSum([x \in 1..c.m |-> GPow(c.phi, x - 1)]))
               [] c.fn = "Resampling" -> IF j - 1 \in Central(c) THEN RAdd(RSub(G1, c.phi), RMul(c.phi, c.p)) ELSE RMul(c.phi, c.p)
               [] c.fn = "Disjoint Resampling" -> c.p)       \* phi = 1
      [] c.ev = "ballot" ->               \* profiles in which ballot c.sets[j] occurs (one voter each)
            (CASE c.fn = "Noise" -> LET X == GS(c.sets[j]) IN
                     RDiv(NoiseWeight(c, X), RSum([b \in 1..Len(c.sets) |-> NoiseWeight(c, GS(c.sets[b]))]))
               [] c.fn = "Disjoint Resampling" -> RFrac(1, c.groups))     \* phi = 0
      [] c.ev = "repeat" ->               \* two voters, the second repeats the ballot of the first (fresh ballots: never, up to 1e-9)
            RDiv(c.replace, RAdd(G1, c.replace))
FrequencyFails(c) ==
    IF c.ev = "ballot" /\ c.fn = "Disjoint Resampling" /\ (Len(c.counts) # c.groups \/ \E i, j \in 1..Len(c.sets) : i # j /\ GS(c.sets[i]) \cap GS(c.sets[j]) # {})
    THEN {"the groups are not disjoint or their number is wrong"}
    ELSE {"frequency of event " \o ToString(j) \o " is implausible" : j \in {x \in 1..Len(c.counts) : ~ Plausible(c.counts[x], c.N, Prob(c, x))}}

(* moments of N points around the centre: sums of the deviations and of their squares, per coordinate *)
Var(s) == CASE s.dist \in {"1d_interval", "2d_square", "3d_cube"} -> RDiv(Sq(s.width), R(12))
            [] s.dist = "2d_disc" -> RDiv(Sq(s.width), R(16))
            [] OTHER -> Sq(s.sigma)
MomentFails(c) ==
    LET s == c.vs
        within(x, b2) == RLe(Sq(x), b2) IN
    UNION {(IF within(c.sum[i], RMul(R(64 * c.N), Var(s))) THEN {} ELSE {"the points are not centred"})
           \* the fourth moment is at most 3 Var^2
           \cup (IF within(RSub(c.sumsq[i], RMul(R(c.N), Var(s))), RMul(R(64 * 2 * c.N), Sq(Var(s)))) THEN {} ELSE {"the points have a wrong spread"})
           : i \in 1..Len(c.sum)}

GeneratorFails(c) ==
    LET name == IF c.fn = "" THEN "no id" ELSE c.fn
        tag(S) == {name \o ": " \o t : t \in S} IN
    CASE c.do = "profile" ->
            IF Valid(c) THEN tag(IF c.cls # "" THEN {"refused valid parameters with " \o c.cls} ELSE ProfileFails(c))
            ELSE tag(IF c.cls = "" THEN {"accepted invalid parameters"} ELSE IF c.cls \in Refusals(c) THEN {} ELSE {"invalid parameters raise " \o c.cls})
      [] c.do = "count" -> tag(IF c.cls # "" THEN {"refused valid parameters with " \o c.cls} ELSE FrequencyFails(c))
      [] c.do = "moments" -> {c.vs.dist \o ": " \o t : t \in (IF c.cls # "" THEN {"raised " \o c.cls} ELSE MomentFails(c))}
      [] c.do = "point" ->
            LET s == c.vs
                good == DimOfDist(s.dist) > 0 /\ (Len(s.center) = DimOfDist(s.dist)) IN
            {s.dist \o ": " \o t : t \in
               (IF good THEN (IF c.cls # "" THEN {"refused with " \o c.cls}
                              ELSE (IF c.dim # DimOfDist(s.dist) THEN {"wrong dimension"} ELSE {})
                                   \cup UNION {SideFails(s, <<c.V[j]>>, 1, "random_point") : j \in 1..Len(c.V)})
                ELSE (IF c.cls = "" THEN {"invalid distribution accepted"} ELSE IF c.cls = "ValueError" THEN {} ELSE {"invalid distribution raises " \o c.cls}))}
GeneratorsFails(rec) == UNION {{<<j, t>> : t \in GeneratorFails(rec.calls[j])} : j \in 1..Len(rec.calls)}
=============================================================================
