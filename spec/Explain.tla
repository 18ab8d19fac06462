------------------------------- MODULE Explain -------------------------------
(***************************************************************************)
(* Printed explanations.  An explanation of a sequential rule is read as a *)
(* behaviour of the rule's machine (module Machines): every listed step    *)
(* must be a step of the machine from the state reached so far, with the   *)
(* tied candidates, scores, loads, budgets and costs of that state, and    *)
(* the last state must be the returned committee.  Explanations of the     *)
(* other rules and the witnesses of failing properties must be facts.      *)
(* A printed number is [q, x]: its value, and whether it was printed       *)
(* exactly (not as a floating-point number).                               *)
(***************************************************************************)
EXTENDS Machines, Axioms

ESet(s) == {s[j] : j \in 1..Len(s)}
Abs(a) == IF RLt(a, Zero) THEN RSub(Zero, a) ELSE a
Tol == "1/10000"
Says(num, val) == IF num.x THEN num.q = val ELSE RLe(Abs(RSub(num.q, val)), RMul(Tol, RAdd(One, Abs(val))))
SaysAll(nums, f) == Len(nums) = Len(f) /\ \A j \in 1..Len(f) : Says(nums[j], f[j])

(* ------------------------------------------------------------ steps *)
(* the number that a step announces *)
StepValue(E, r, u, c) ==
    CASE r.id = "seqthiele" -> Gain(E, r.sf, u.W, c)
      [] r.id = "revseqthiele" -> Loss(E, r.sf, u.W, c)
      [] r.id = "maximin" -> MaximinSupport(E, u.W \cup {c})
      [] r.id = "seqphragmen" \/ u.ph = 2 -> IF c \in Approved(E) THEN PhrLoad(E, u.aux, c) ELSE RMaxS(ESet(u.aux))
      [] r.id = "mes" -> MinQ(E, u.aux, c)
Legal(E, r, u, c) == c \in Cands(E) /\ (c \in u.W <=> r.id = "revseqthiele")
MaxLoadOnly(E, r, u, c) == c \notin Approved(E)

TieFails(E, r, u, s, B) ==
    IF r.id = "revseqthiele"
    THEN LET said == ESet(s.tied) IN
         IF s.tie /\ s.favour # s.cand THEN {"tie broken to the disadvantage of another candidate than the removed one"}
         ELSE IF Cardinality(B) = 1 THEN (IF s.tie THEN {"mentions a tie that does not exist"} ELSE {})
         ELSE IF said = B /\ Len(s.tied) = Cardinality(B) THEN {}
         ELSE IF (s.tie /\ said = B \ {s.cand} /\ Cardinality(B) > 2) \/ (~ s.tie /\ Cardinality(B) = 2)
              THEN {"list of tied candidates lacks the removed candidate"}
         ELSE {"wrong list of tied candidates"}
    ELSE (IF s.tie /\ s.favour # s.cand THEN {"tie broken in favor of another candidate than the chosen one"} ELSE {})
         \cup (IF s.tie # (Cardinality(B) > 1) THEN {"does not report exactly the existing ties"} ELSE {})
         \cup (IF s.tie /\ (ESet(s.tied) # B \/ Len(s.tied) # Cardinality(B)) THEN {"wrong list of tied candidates"} ELSE {})

StepFails(E, r, u, s, no) ==
    LET B == Best(E, r, u)
        v == Apply(E, r, u, s.cand)
        val == StepValue(E, r, u, s.cand)
    IN  (IF s.no # no THEN {"steps are not numbered consecutively"} ELSE {})
        \cup (IF s.cand \notin B THEN {"a step chooses a candidate that is not optimal"} ELSE {})
        \cup TieFails(E, r, u, s, B)
        \cup (IF ~ Says(s.value, val) THEN {"wrong value of a step"} ELSE {})
        \cup (IF s.tie /\ ~ Says(s.same, val) THEN {"wrong value of a tie"} ELSE {})
        \cup (IF r.id \in {"seqthiele", "revseqthiele"} /\ ~ Says(s.total, ThieleScore(E, r.sf, v.W))
              THEN {"wrong total score"} ELSE {})
        \cup (IF r.id \in {"seqphragmen", "mes"} /\ ~ SaysAll(s.loads, v.aux)
              THEN {"wrong loads or budgets after a step"} ELSE {})

(* runs through the steps; the result is the last universe and the failing clauses *)
RECURSIVE Follow(_, _, _, _, _, _)
Follow(E, r, u, steps, j, off) ==
    IF j > Len(steps) THEN [u |-> u, bad |-> {}]
    ELSE IF ~ Legal(E, r, u, steps[j].cand) THEN [u |-> u, bad |-> {"a step names an impossible candidate"}]
    ELSE IF Done(E, r, u) THEN [u |-> u, bad |-> {"more steps than the rule takes"}]
    ELSE LET rest == Follow(E, r, Apply(E, r, u, steps[j].cand), steps, j + 1, off)
         IN  [u |-> rest.u, bad |-> rest.bad \cup StepFails(E, r, u, steps[j], off + j)]

RunFails(E, r, d, W) ==
    LET f == Follow(E, r, InitU(E, r), d.steps, 1, 0)
    IN  f.bad \cup (IF f.u.W # W THEN {"the steps do not lead to the returned committee"} ELSE {})

MESFails(E, r, d, W) ==
    LET start == InitU(E, r)
        one == Follow(E, r, start, d.steps, 1, 0)
        over == one.bad # {} \/ MESRunning(E, r, one.u)
        second == r.comp = "seqphragmen" /\ Cardinality(one.u.W) < E.k
        u2 == Switch(E, r, one.u)
        two == Follow(E, r, u2, d.steps2, 1, Len(d.steps))
    IN  IF d.few THEN (IF ~ FewApproved(E) THEN {"claims that too few candidates are approved"} ELSE {})
        ELSE (IF ~ SaysAll(d.startloads, start.aux) THEN {"wrong starting budget"} ELSE {})
             \cup one.bad
             \cup (IF over /\ one.bad = {} THEN {"phase 1 stops although a candidate is affordable"} ELSE {})
             \cup (IF d.second # second THEN {"phase 2 mentioned exactly when it does not happen"} ELSE {})
             \cup (IF r.comp # "av" /\ ~ d.second /\ one.u.W # W THEN {"the steps do not lead to the returned committee"} ELSE {})
             \cup (IF r.comp = "av" /\ ~ (one.u.W \subseteq W) THEN {"the steps do not lead to the returned committee"} ELSE {})
             \cup (IF d.second /\ second
                   THEN (IF ~ SaysAll(d.startloads2, u2.aux) THEN {"wrong starting loads of phase 2"} ELSE {})
                        \cup two.bad \cup (IF two.u.W # W THEN {"the steps do not lead to the returned committee"} ELSE {})
                   ELSE {})

IncrementBudget(E, j) == MESRuleBudget(RDiv(R(j), TotalWeight(E)))
IncrementFails(E, d) ==
    IF d.few \/ FewApproved(E) THEN (IF d.few # FewApproved(E) THEN {"wrong about the number of approved candidates"} ELSE {})
    ELSE IF d.virtual < E.k THEN {"virtual committee size is too small"}
    ELSE LET full(j) == \E X \in ResOutcome(E, IncrementBudget(E, j)) : Cardinality(X) = E.k
         IN  IF full(d.virtual) /\ \A j \in E.k..(d.virtual - 1) : ~ full(j) THEN {} ELSE {"wrong virtual committee size"}

(* ------------------------------------------------- facts about the result *)
ThieleFacts(E, r, d, O) ==
    (IF Len(d.scores) # Cardinality(O) THEN {"not one score per winning committee"} ELSE {})
    \cup (IF \E j \in 1..Len(d.scores) : ~ Says(d.scores[j].score, ThieleScore(E, r.sf, ESet(d.scores[j].com))) \/ ESet(d.scores[j].com) \notin O
          THEN {"wrong score of a winning committee"} ELSE {})
RevFacts(E, r, d, out) ==
    IF Len(d.scores) = Len(out) /\ \A j \in 1..Len(out) : Says(d.scores[j].score, ThieleScore(E, r.sf, ESet(out[j])))
    THEN {} ELSE {"wrong score of a winning committee"}
(* load distributions of all runs of seq-Phragmen that lead to W *)
RECURSIVE Finals(_, _, _)
Finals(E, r, X) == IF \A u \in X : Done(E, r, u) THEN X ELSE Finals(E, r, StepFrontier(E, r, X, FALSE))
PairFacts(E, r, call) ==
    LET d == call.d
        fin == Finals(E, r, {InitU(E, r)})
        O == {ESet(call.out[j]) : j \in 1..Len(call.out)}
    IN  (IF {ESet(d.pairs[j].com) : j \in 1..Len(d.pairs)} # O \/ Len(d.pairs) # Len(call.out)
         THEN {"not one load distribution per winning committee"} ELSE {})
        \cup (IF \E j \in 1..Len(d.pairs) : ~ \E u \in fin : u.W = ESet(d.pairs[j].com) /\ SaysAll(d.pairs[j].loads, u.aux)
              THEN {"wrong load distribution of a winning committee"} ELSE {})
SeparableFacts(E, id, d, O) ==
    LET s == [c \in Cands(E) |-> IF id = "av" THEN AVScore(E, c) ELSE SAVScore(E, c)]
        f == [j \in 1..E.m |-> s[j - 1]]
        cut == CHOOSE x \in {s[c] : c \in Cands(E)} :
                   /\ Cardinality({c \in Cands(E) : RLe(x, s[c])}) >= E.k
                   /\ Cardinality({c \in Cands(E) : RLt(x, s[c])}) < E.k
        above == {c \in Cands(E) : RLt(cut, s[c])}
        at == {c \in Cands(E) : s[c] = cut}
        sure == IF Cardinality(above \cup at) = E.k THEN above \cup at ELSE above
        maybe == (above \cup at) \ sure
        miss == IF maybe = {} THEN 0 ELSE E.k - Cardinality(sure)
    IN  (IF Len(d.scores) # E.m \/ (\E j \in 1..Len(d.scores) : (d.scores[j].com # <<j - 1>>) \/ ~ Says(d.scores[j].score, s[j - 1]))
         THEN {"wrong list of scores"} ELSE {})
        \cup (IF ~ Says(d.cutoff, cut) THEN {"wrong cutoff"} ELSE {})
        \cup (IF ESet(d.certain) # sure \/ ESet(d.possible) # maybe \/ d.missing # miss THEN {"wrong candidates at the cutoff"} ELSE {})
DistanceFacts(E, call) ==
    LET d == call.d
        vec(W) == [v \in Voters(E) |-> R(Ham(E.A[v], W))]
    IN  (IF ~ Says(d.score, R(MaxHam(E, ESet(call.out[1])))) THEN {"wrong maximal distance"} ELSE {})
        \cup (IF Len(d.vectors) # Len(call.out) \/ \E j \in 1..Len(d.vectors) : ~ SaysAll(d.vectors[j], vec(ESet(call.out[j])))
              THEN {"wrong distances"} ELSE {})
GreedyMonroeFacts(E, d, W) ==
    LET D == d.districts
        sat(j) == {v \in ESet(D[j].voters) : D[j].cand \in E.A[v]}
        good == UNION {sat(j) : j \in 1..Len(D)}
        opt == MonroeScore(E, W)
    IN  (IF {D[j].cand : j \in 1..Len(D)} # W \/ Len(D) # E.k THEN {"assignment does not list the committee"} ELSE {})
        \cup (IF UNION {ESet(D[j].voters) : j \in 1..Len(D)} # Voters(E)
                 \/ (\E j \in 1..Len(D) : Len(D[j].voters) # Cardinality(ESet(D[j].voters)))
                 \/ (\E i, j \in 1..Len(D) : i # j /\ ESet(D[i].voters) \cap ESet(D[j].voters) # {})
                 \/ \E j \in 1..Len(D) : Len(D[j].voters) \notin {E.n \div E.k, (E.n + E.k - 1) \div E.k}
              THEN {"assignment is not balanced"} ELSE {})
        \cup (IF \E j \in 1..Len(D) : ESet(D[j].marked) # ESet(D[j].voters) \ sat(j) THEN {"wrong marks for unsatisfied voters"} ELSE {})
        \cup (IF RLt(R(Cardinality(good)), d.score.q) THEN {"wrong score of the assignment"} ELSE {})
        \cup (IF d.better.q = "-1/1" THEN (IF d.score.q # R(opt) THEN {"optimal score missing"} ELSE {})
              ELSE IF d.better.q # R(opt) \/ ~ RLt(d.score.q, R(opt)) THEN {"wrong optimal Monroe score"} ELSE {})

(* ------------------------------------------------- one recorded call *)
ExplainCall(E, r, name, call) ==
    LET O == {ESet(call.out[j]) : j \in 1..Len(call.out)}
        W == ESet(call.out[1])
        d == call.d
    IN
    IF call.err # "" THEN {"raised " \o call.err}
    ELSE IF call.unread # "" THEN {"explanation lacks " \o call.unread}
    ELSE (IF d.listed.count # Len(call.out) \/ Len(d.listed.coms) # Len(call.out) \/ {ESet(d.listed.coms[j]) : j \in 1..Len(d.listed.coms)} # O
          THEN {"the listed committees are not the returned ones"} ELSE {})
    \cup (IF call.out = <<>> THEN {} ELSE
    CASE r.id = "seqthiele" -> ThieleFacts(E, r, d, O) \cup (IF call.res THEN RunFails(E, r, d, W) \cup (IF Says(d.start, Zero) THEN {} ELSE {"wrong starting score"}) ELSE {})
      [] r.id = "revseqthiele" -> RevFacts(E, r, d, call.out) \cup
            (IF call.res THEN RunFails(E, r, d, W) \cup (IF Says(d.start, ThieleScore(E, r.sf, Cands(E))) THEN {} ELSE {"wrong starting score"}) ELSE {})
      [] r.id = "seqphragmen" -> PairFacts(E, r, call) \cup (IF call.res THEN RunFails(E, r, d, W) ELSE {})
      [] r.id = "maximin" -> IF call.res THEN RunFails(E, r, d, W) ELSE {}
      [] r.id = "mes" -> IF call.res THEN MESFails(E, r, d, W) ELSE {}
      [] r.id = "increment" -> IncrementFails(E, d)
      [] r.id = "thiele" -> IF Says(d.score, ThieleScore(E, r.sf, W)) THEN {} ELSE {"wrong optimal score"}
      [] r.id = "monroe" -> IF Says(d.score, R(MonroeScore(E, W))) THEN {} ELSE {"wrong optimal score"}
      [] r.id = "lexcc" -> IF SaysAll(d.vector, AtLeastVector(E, W)) THEN {} ELSE {"wrong at-least-l scores"}
      [] r.id \in {"minimaxav", "lexminimaxav"} -> DistanceFacts(E, call)
      [] r.id \in {"av", "sav"} -> SeparableFacts(E, r.id, d, O)
      [] r.id = "greedy-monroe" -> GreedyMonroeFacts(E, d, W)
      [] OTHER -> {})

ExplainFails(E, r, rec) ==
    UNION {{<<j, t>> : t \in ExplainCall(E, r, rec.name, rec.calls[j])} : j \in 1..Len(rec.calls)}

(* ------------------------------------------------- witnesses of failing properties *)
AboutText(p) == CASE p = "jr" -> "JR" [] p = "pjr" -> "PJR" [] p = "ejr" -> "EJR" [] p = "ejr+" -> "EJR+" [] p = "fjr" -> "FJR"
                  [] p = "core" -> "in the core" [] p = "pareto" -> "Pareto optimal" [] p = "priceability" -> "priceable"
                  [] p = "stable-priceability" -> "stable priceable"
Group(E, d) == ESet(d.group)
Enough(E, q, d, size) == RLe(RMul(size, q), Weight(E, Group(E, d)))
GroupFails(E, d) ==
    (IF d.group = <<>> \/ ~ (Group(E, d) \subseteq Voters(E)) THEN {"empty or unknown group of voters"} ELSE {})
    \cup (IF RLt("51/1000", Abs(RSub(d.pct.q, RMul(R(100), RDiv(Weight(E, Group(E, d)), TotalWeight(E))))))
          THEN {"wrong percentage of the group"} ELSE {})
    \cup (IF d.weighted = IsUnit(E) THEN {"wrong about weights"} ELSE {})
Whole(x) == RIsInt(x.q)
WitnessFails(E, W, q, c) ==
    LET d == c.d
        T == ESet(d.set)
        G == Group(E, d)
    IN
    IF c.prop = "pareto" THEN (IF T \subseteq Cands(E) /\ Cardinality(T) = Cardinality(W) /\ Dominates(E, T, W) THEN {} ELSE {"does not dominate the committee"})
    ELSE GroupFails(E, d) \cup
    (IF ~ (T \subseteq Cands(E)) \/ T = {} \/ ~ (G \subseteq Voters(E)) THEN {"no witness"}
     ELSE
     CASE c.prop = "jr" -> IF Enough(E, q, d, One) /\ \A v \in G : T \subseteq E.A[v] /\ Util(E, v, W) = 0 THEN {} ELSE {"not a violation of JR"}
       [] c.prop = "pjr" -> IF Whole(d.ell) /\ Enough(E, q, d, d.ell.q) /\ RLe(d.ell.q, R(Cardinality(T))) /\ (\A v \in G : T \subseteq E.A[v]) /\ d.beta.q = d.ell.q
                               /\ RLt(R(Cardinality(UNION {E.A[v] \cap W : v \in G})), d.ell.q) THEN {} ELSE {"not a violation of PJR"}
       [] c.prop = "ejr" -> IF Whole(d.ell) /\ Enough(E, q, d, d.ell.q) /\ RLe(d.ell.q, R(Cardinality(T))) /\ (\A v \in G : T \subseteq E.A[v]) /\ d.beta.q = d.ell.q
                               /\ \A v \in G : RLt(R(Util(E, v, W)), d.ell.q) THEN {} ELSE {"not a violation of EJR"}
       [] c.prop = "ejr+" -> IF Whole(d.ell) /\ Enough(E, q, d, d.ell.q) /\ T \cap W = {} /\ (\A v \in G : T \subseteq E.A[v]) /\ d.beta.q = d.ell.q
                                /\ \A v \in G : RLt(R(Util(E, v, W)), d.ell.q) THEN {} ELSE {"not a violation of EJR+"}
       [] c.prop = "fjr" -> IF Whole(d.ell) /\ Whole(d.beta) /\ d.ell.q = R(Cardinality(T)) /\ Enough(E, q, d, d.ell.q) /\ RLe(One, d.beta.q)
                               /\ d.most.q = RSub(d.beta.q, One)
                               /\ \A v \in G : RLe(d.beta.q, R(Util(E, v, T))) /\ RLe(R(Util(E, v, W)), d.most.q) THEN {} ELSE {"not a violation of FJR"}
       [] c.prop = "core" -> IF Enough(E, q, d, R(Cardinality(T))) /\ \A v \in G : Util(E, v, T) > Util(E, v, W) THEN {} ELSE {"not a violation of the core"})

(* a printed price system, numbers rounded *)
Close(a, b) == RLe(Abs(RSub(a, b)), "1/1000")
AtMost(a, b) == RLe(a, RAdd(b, "1/1000"))
TableFails(E, W, stable, d) ==
    IF d.head # [i \in 1..E.m |-> i - 1] \/ d.voters # [v \in Voters(E) |-> v] \/ \E v \in Voters(E) : Len(d.p[v]) # E.m THEN {"table of payments is incomplete"}
    ELSE LET p == [v \in Voters(E) |-> [i \in 1..E.m |-> d.p[v][i].q]]
             b == d.b.q
             ok == /\ \A v \in Voters(E) : AtMost(Paid(p, v, Cands(E), E), RMul(E.w[v], b))
                                           /\ \A i \in 1..E.m : AtMost(Zero, p[v][i]) /\ ((i - 1) \notin E.A[v] => Close(p[v][i], Zero))
                   /\ \A i \in 1..E.m : Close(RSum([v \in Voters(E) |-> p[v][i]]), IF (i - 1) \in W THEN One ELSE Zero)
                   /\ \A c \in Cands(E) \ W :
                        AtMost(RSum([v \in Voters(E) |-> IF c \in E.A[v] THEN (IF stable THEN Offer(E, W, b, p, v) ELSE Left(E, W, b, p, v)) ELSE Zero]), One)
         IN  IF ok THEN {} ELSE {"the printed payments are not a price system"}

WitnessCall(E, W, q, c) ==
    IF c.err # "" THEN {c.prop \o ": raised " \o c.err}
    ELSE {c.prop \o "/" \o c.alg \o ": " \o t : t \in
      IF c.unread # "" THEN {"explanation lacks " \o c.unread}
      ELSE (IF c.says # (IF c.val THEN "yes" ELSE "no") THEN {"announces another answer than it returns"} ELSE {})
         \cup (IF c.about # AboutText(c.prop) THEN {"announces another property"} ELSE {})
         \cup (IF ESet(c.com) # W THEN {"announces another committee"} ELSE {})
         \cup (IF c.saysq # "" /\ c.saysq # q THEN {"announces another quota"} ELSE {})
         \cup (IF c.prop \in {"priceability", "stable-priceability"}
               THEN (IF c.val /\ c.d.table THEN TableFails(E, W, c.prop = "stable-priceability", c.d) ELSE {})
               ELSE IF c.val THEN {} ELSE WitnessFails(E, W, q, c))}
WitnessesFails(E, W, q, rec) ==
    UNION {{<<j, t>> : t \in WitnessCall(E, W, q, rec.calls[j])} : j \in 1..Len(rec.calls)}
=============================================================================
