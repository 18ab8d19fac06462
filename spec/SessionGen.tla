----------------------------- MODULE SessionGen -----------------------------
(* Generates sessions (TLC simulation) for replay on the real code.         *)
EXTENDS SessionMachine, Json
CONSTANT Depth
VARIABLES s, h

Pick(S) == RandomElement(S)
Chance(k) == Pick(1..100) <= k
Weights == {"1/1", "1/1", "1/1", "2/1", "3/1", "1/2", "4/3"}
Rules == {"av", "sav", "pav", "slav", "cc", "lexcc", "geom2", "seqpav", "revseqpav", "seqslav", "seqcc", "seqphragmen",
          "minimaxphragmen", "leximaxphragmen", "maximin-support", "monroe", "greedy-monroe", "minimaxav", "lexminimaxav",
          "equal-shares", "equal-shares-with-av-completion", "equal-shares-with-increment-completion",
          "phragmen-enestroem", "consensus-rule", "trivial", "eph"}
Props == {"pareto", "jr", "pjr", "ejr", "ejr+", "priceability", "stable-priceability", "core", "fjr"}
ScoreFns == {"pav", "cc", "av", "slav", "geom2", "sav", "monroescore", "lexccscore", "minimaxav", "marginal-pav", "marginal-cc", "num_voters_with_upper_bounded_hamming_distance"}
Ballot(m) == CHOOSE q \in {SetToSeq({c \in 0..(m - 1) : Chance(45)})} : TRUE
Base == [op |-> "", p |-> 0, q |-> 0, v |-> 0, i |-> 0, m |-> 0, c |-> 0, b |-> <<>>, bs |-> <<>>, vs |-> <<>>, w |-> "1/1",
         names |-> <<>>, name |-> "", how |-> "", rule |-> "", alg |-> 0, res |-> TRUE, max |-> 0, k |-> 1, W |-> <<>>, cont |-> "", prop |-> "", verb |-> 0, fn |-> ""]
Live == {p \in {1, 2} : s.P[p].ex}
Some(S) == IF S = {} THEN 1 ELSE Pick(S)
(* a committee: k different candidates *)
RECURSIVE Draws(_, _)
Draws(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE CHOOSE q \in {<<c>> \o Draws(S \ {c}, k - 1) : c \in {Pick(S)}} : TRUE
OpOf(kind, p) ==
    LET n == Len(s.P[p].V)
        m == s.P[p].m
        B == [Base EXCEPT !.op = kind, !.p = p]
        U == \A x \in 1..n : RIsInt(s.P[p].V[x].w) /\ RLt(s.P[p].V[x].w, "4/1")
    IN  CASE kind = "compute" -> [B EXCEPT !.rule = Pick(Rules), !.alg = Pick(0..20), !.res = Chance(50), !.k = Pick(1..m), !.max = IF Chance(15) THEN Pick(1..3) ELSE 0]
          [] kind = "wrapper" -> [B EXCEPT !.rule = Pick(Rules), !.alg = Pick(0..20), !.res = Chance(50), !.k = Pick(1..m)]
          [] kind = "property" -> [B EXCEPT !.prop = Pick(Props), !.alg = Pick(0..20), !.W = Draws(0..(m - 1), Pick(1..m)), !.cont = Pick({"list", "set", "CandidateSet", "tuple"})]
          [] kind = "analysis" -> [B EXCEPT !.W = Draws(0..(m - 1), Pick(1..m)), !.cont = Pick({"list", "set", "CandidateSet"})]
          [] kind = "score" -> [B EXCEPT !.fn = Pick(ScoreFns), !.W = Draws(0..(m - 1), Pick(1..m)), !.cont = Pick({"list", "set", "CandidateSet"})]
          [] kind = "info" -> [B EXCEPT !.fn = Pick({"str", "compact", "party", "total", "approved"})]
          [] kind = "verbosity" -> [B EXCEPT !.verb = Pick(Levels)]
          [] kind = "add" -> [B EXCEPT !.b = Ballot(m)]
          [] kind = "set" -> [B EXCEPT !.b = Ballot(m), !.i = IF n = 0 THEN 0 ELSE Pick(0..(n - 1))]
          [] kind = "copy" -> [B EXCEPT !.q = Pick({1, 2}), !.how = Pick({"copy", "copy.copy", "deepcopy"})]
          [] kind = "rename" -> [B EXCEPT !.i = Pick(1..m), !.name = Pick({"new", "0", "zz", "B"})]
          [] kind = "editentry" -> [B EXCEPT !.i = IF n = 0 THEN 1 ELSE Pick(1..n), !.c = Pick(0..(m - 1)), !.w = Pick(Weights)]
          [] kind = "unit" /\ ~ U -> [B EXCEPT !.op = "info", !.fn = "str"]
          [] OTHER -> B
Kinds == <<"compute", "wrapper", "property", "analysis", "score", "info", "verbosity", "add", "set", "unit", "merge", "copy", "rename", "editentry", "again">>
Freq  == <<30, 6, 18, 3, 10, 3, 8, 4, 3, 2, 3, 4, 2, 8, 26>>
RECURSIVE Cum(_)
Cum(j) == IF j = 0 THEN 0 ELSE Cum(j - 1) + Freq[j]
Draw(r) == Kinds[CHOOSE j \in 1..Len(Kinds) : Cum(j - 1) < r /\ r <= Cum(j)]
PureSoFar == {j \in 1..Len(h) : h[j].op \in Pure}
(* repeat an earlier computation, now and then on the other profile *)
Again == LET o == h[Pick(PureSoFar)] IN
         CHOOSE q \in {IF Chance(25) /\ Live = {1, 2} /\ s.P[1].m = s.P[2].m THEN [x EXCEPT !.p = 3 - x.p] ELSE x : x \in {o}} : TRUE

Start(p, m, n) == << [Base EXCEPT !.op = "new", !.p = p, !.m = m], [Base EXCEPT !.op = "addmany", !.p = p, !.bs = [x \in 1..n |-> Ballot(m)]] >>
Apply(st, ops) == LET RECURSIVE f(_)
                      f(j) == IF j = 0 THEN st ELSE SessionAfter(f(j - 1), ops[j])
                  IN  f(Len(ops))
S0 == [P |-> [i \in Slots |-> NoP], V |-> [i \in Objs |-> NoV], verb |-> 30, settings |-> ""]
Init == s = S0 /\ h = <<>>
Fine(st, op) == /\ SessionEnabled(st, op)
                /\ (op.op \in Pure => /\ Len(st.P[op.p].V) > 0 /\ (op.rule = "leximaxphragmen" => Len(st.P[op.p].V) <= 3)
                                      /\ op.k <= st.P[op.p].m /\ \A x \in 1..Len(op.W) : op.W[x] < st.P[op.p].m)
RECURSIVE AllFine(_, _)
AllFine(st, ops) == ops = <<>> \/ (Fine(st, Head(ops)) /\ AllFine(SessionAfter(st, Head(ops)), Tail(ops)))
(* the same computation before and after the profile was edited in place or replaced by a new one of the same size *)
Renew(p) == << [Base EXCEPT !.op = "new", !.p = p, !.m = s.P[p].m], [Base EXCEPT !.op = "addmany", !.p = p, !.bs = [x \in 1..Len(s.P[p].V) |-> Ballot(s.P[p].m)]] >>
Edits(p) == CHOOSE q \in {CASE r <= 35 -> <<OpOf("set", p)>> [] r <= 50 -> <<OpOf("set", p), OpOf("set", p)>> [] r <= 75 -> <<OpOf("editentry", p)>>
                            [] r <= 85 -> Renew(p) [] OTHER -> <<OpOf(Pick({"merge", "add", "unit", "rename"}), p)>> : r \in {Pick(1..100)}} : TRUE
Sandwich(p) == CHOOSE q \in {<<o>> \o Edits(p) \o <<o>> : o \in {OpOf(Pick({"compute", "compute", "compute", "score", "score", "property", "property", "wrapper"}), p)}} : TRUE
Next == \/ /\ h = <<>>
           /\ \E m \in {Pick(2..5)}, n1 \in {Pick(1..5)}, n2 \in {Pick(1..5)} :
              \E ops \in {Start(1, m, n1) \o Start(2, m, n2)} : h' = ops /\ s' = Apply(s, ops)
        \/ /\ h # <<>> /\ Len(h) < Depth
           /\ \E r \in {Pick(1..Cum(Len(Kinds)))}, p \in {Some(Live)}, sw \in {Chance(15)} :
              \E kind \in {Draw(r)} :
              \E ops \in {IF sw THEN Sandwich(p) ELSE <<IF kind = "again" THEN (IF PureSoFar = {} THEN OpOf("compute", p) ELSE Again) ELSE OpOf(kind, p)>>} :
                IF AllFine(s, ops) THEN s' = Apply(s, ops) /\ h' = h \o ops ELSE UNCHANGED <<s, h>>
Emit == Len(h) >= Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
