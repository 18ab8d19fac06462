------------------------------- MODULE Judge -------------------------------
(* Verdicts on recorded calls.  A failing clause is a pair <<call index, text>>. *)
EXTENDS Across, Axioms, Validation, Scores, Helpers, Preflib, Explain, Generators, TLC
PM == INSTANCE ProfileMachine
SM == INSTANCE SessionMachine
FM == INSTANCE FileMachine
OM == INSTANCE OutputMachine

ToSet2(s) == {s[j] : j \in 1..Len(s)}
ElectionOf(rec) == [m |-> rec.m, n |-> Len(rec.A), A |-> [v \in 1..Len(rec.A) |-> ToSet2(rec.A[v])],
                    w |-> rec.w, k |-> rec.k]
SFOf(r) == SFp(r.sf, r.p)
RuleOf(r) == [id |-> r.id, sf |-> SFOf(r), comp |-> r.comp, bud |-> Zero]

MachineIds == {"seqthiele", "revseqthiele", "seqphragmen", "mes", "enestroem", "consensus", "maximin", "greedy-monroe"}
IsMachine(rec) == rec.kind = "rule" /\ rec.rule.id \in MachineIds

Committee(x) == ToSet2(x)
OutSet(call) == {Committee(call.out[j]) : j \in 1..Len(call.out)}

(* winning committees of a non-machine rule *)
OptWinners(E, r) ==
    CASE r.id = "thiele"      -> ThieleWinners(E, SFOf(r))
      [] r.id = "lexcc"       -> LexCCWinners(E)
      [] r.id = "minimaxphragmen" -> MinimaxPhragmenWinners(E)
      [] r.id = "leximaxphragmen" -> LeximaxPhragmenWinners(E)
      [] r.id = "monroe"      -> MonroeWinners(E)
      [] r.id = "minimaxav"   -> MAVWinners(E)
      [] r.id = "lexminimaxav" -> LexMAVWinners(E)
      [] r.id \in {"av", "sav"} -> SeparableWinners(E, r.id)
      [] r.id = "trivial"     -> TrivialWinners(E)
      [] r.id = "eph"         -> EPHOutcomes(E)
      [] r.id = "rsd"         -> RSDOutcomes(E)
      [] r.id = "increment"   -> IF FewApproved(E) THEN FillWinners(E) ELSE IncrementOutcome(E)
OptResolute(E, r, Win) ==
    CASE r.id \in {"av", "sav"} -> {SeparableResolute(E, r.id)}
      [] OTHER -> Win

Min2(a, b) == IF a < b THEN a ELSE b

(* clauses violated by one call, given the winning committees and the allowed resolute results *)
LexFirst(Win) == {W \in Win : \A X \in Win : StrLe(Fmt(W, <<>>), Fmt(X, <<>>))}
CallFails(call, Win, Res0) ==
    LET Res == IF "lex" \in DOMAIN call THEN LexFirst(Win) ELSE Res0 IN   \* lexicographic_tiebreaking=True
    IF "lex" \in DOMAIN call /\ ~ call.res
    THEN (IF call.err = "" THEN {"lexicographic tie-breaking accepted for an irresolute computation"} ELSE {})
    ELSE IF call.err # "" THEN {"raised " \o call.err}
    ELSE LET O == OutSet(call) IN
         IF call.res
         THEN (IF Cardinality(O) # 1 THEN {"resolute: not exactly one committee"} ELSE {})
              \cup (IF ~ (O \subseteq Win) THEN {"resolute: not a winning committee"} ELSE {})
              \cup (IF O \subseteq Win /\ ~ (O \subseteq Res) THEN {"resolute: wrong tie-breaking"} ELSE {})
         ELSE (IF ~ (O \subseteq Win) THEN {"irresolute: returns a committee that does not win"} ELSE {})
              \cup (IF call.max = 0 /\ ~ (Win \subseteq O) THEN {"irresolute: misses a winning committee"} ELSE {})
              \cup (IF call.max # 0 /\ Cardinality(O) # Min2(call.max, Cardinality(Win))
                    THEN {"limited: wrong number of committees"} ELSE {})

RuleFails(rec, Fin, FinRes) ==
    LET E   == ElectionOf(rec)
        Win == IF IsMachine(rec) THEN (IF rec.resonly THEN FinRes ELSE Fin) ELSE OptWinners(E, rec.rule)
        Res == IF IsMachine(rec) THEN (IF rec.rule.comp = "av" THEN Fin ELSE FinRes) ELSE OptResolute(E, rec.rule, Win)
    IN  UNION {{<<j, t>> : t \in CallFails(rec.calls[j], Win, Res)} : j \in 1..Len(rec.calls)}

(* ------------------------------------------------------------------ axioms *)
AxiomFails(rec) ==
    LET E == ElectionOf(rec)
        W == ToSet2(rec.W)
        q == IF rec.q = "" THEN StdQuota(E, W) ELSE rec.q
        props == {rec.calls[j].prop : j \in 1..Len(rec.calls)}
        Value(p) == CASE p = "priceability" ->
                           IF Assert(CertOK(E, W, FALSE, rec.cert), <<"invalid certificate", rec.id>>) THEN CertValue(E, W, rec.cert) ELSE FALSE
                      [] p = "stable-priceability" ->
                           IF Assert(CertOK(E, W, TRUE, rec.scert), <<"invalid certificate", rec.id>>) THEN CertValue(E, W, rec.scert) ELSE FALSE
                      [] OTHER -> Holds(p, E, W, q)
        truth == [p \in props |-> Value(p)]
        Fail(c) == IF c.err # "" THEN {c.prop \o ": raised " \o c.err}
                   ELSE IF c.val # truth[c.prop] THEN {c.prop \o ": reported " \o ToString(c.val) \o " by " \o c.alg} ELSE {}
    IN  UNION {{<<j, t>> : t \in Fail(rec.calls[j])} : j \in 1..Len(rec.calls)}

(* implications between properties of one committee, and what rules guarantee for their outputs *)
Implications == {<<"core", "fjr">>, <<"fjr", "ejr">>, <<"ejr", "pjr">>, <<"pjr", "jr">>, <<"ejr+", "ejr">>,
                 <<"stable-priceability", "priceability">>, <<"stable-priceability", "core">>, <<"priceability", "pjr">>}
Guarantees(name) ==
    CASE name = "pav" -> {"ejr+", "ejr", "pareto"}
      [] name = "equal-shares" -> {"ejr+", "ejr", "priceability"}
      \* the increment completion stops a run with a larger budget at k members, which can miss even JR
      [] name = "equal-shares-with-av-completion" -> {"ejr+", "ejr"}
      [] name = "seqphragmen" -> {"pjr", "priceability"}
      [] name \in {"leximaxphragmen", "maximin-support", "phragmen-enestroem"} -> {"pjr"}
      [] name \in {"cc", "seqcc", "monroe"} -> {"jr"}
      [] name = "lexcc" -> {"jr", "pareto"}
      [] name \in {"av", "sav", "slav", "geom2", "geom3/2"} -> {"pareto"}
      [] OTHER -> {}
AnalysisFails(rec) ==
    LET full == {<<rec.full[j][1], rec.full[j][2]>> : j \in 1..Len(rec.full)}
        single == {<<rec.single[j][1], rec.single[j][2]>> : j \in 1..Len(rec.single)}
        True(p) == <<p, TRUE>> \in full
    IN  (IF full # single THEN {<<0, "full_analysis differs from the individual checks">>} ELSE {})
        \cup (IF {x[1] : x \in full} # {"pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "priceability", "stable-priceability", "core"}
              THEN {<<0, "full_analysis does not cover the documented properties">>} ELSE {})
        \cup {<<0, x[1] \o " reported without " \o x[2]>> : x \in {y \in Implications : True(y[1]) /\ ~ True(y[2])}}
        \cup {<<0, "output of " \o rec.name \o " reported to violate " \o p>> : p \in {y \in Guarantees(rec.name) : ~ True(y)}}

(* ------------------------------------------------------------------ histories of profile operations *)
ProfileState(o) ==
    [P |-> [j \in PM!Slots |-> IF o.P[j].ex THEN [ex |-> TRUE, m |-> o.P[j].m, names |-> o.P[j].names,
                                                  V |-> [x \in 1..Len(o.P[j].V) |-> [a |-> ToSet2(o.P[j].V[x].a), w |-> o.P[j].V[x].w]]]
                            ELSE PM!NoP],
     V |-> [j \in PM!Objs |-> IF o.V[j].ex THEN [ex |-> TRUE, a |-> ToSet2(o.V[j].a), w |-> o.V[j].w] ELSE PM!NoV]]
HistoryFails(rec) ==
    LET st[j \in 0..Len(rec.calls)] == IF j = 0 THEN PM!InitState ELSE ProfileState(rec.calls[j].obs) IN
    UNION {{<<j, t>> : t \in PM!StepFails(st[j - 1], rec.calls[j].do, rec.calls[j].cls, st[j], rec.calls[j].obs.P,
                                                j > 1 /\ rec.calls[j].do.p > 0 /\ rec.calls[j - 1].obs.P[rec.calls[j].do.p].ex
                                                      /\ ~ rec.calls[j - 1].obs.P[rec.calls[j].do.p].ints)} : j \in 1..Len(rec.calls)}

SessionState(o) == [P |-> [j \in {1, 2} |-> IF o.P[j].ex THEN [ex |-> TRUE, m |-> o.P[j].m, names |-> o.P[j].names,
                                                  V |-> [x \in 1..Len(o.P[j].V) |-> [a |-> ToSet2(o.P[j].V[x].a), w |-> o.P[j].V[x].w]]]
                                                 ELSE PM!NoP],
                    V |-> [j \in PM!Objs |-> PM!NoV], verb |-> o.verb, settings |-> o.settings]
SessionFails(rec) ==
    UNION {{<<j, t>> : t \in SM!SessionStepFails(SessionState(rec.calls[j].b), rec.calls[j], SessionState(rec.calls[j].o))
                              \cup (IF j > 1 /\ rec.calls[j].b # rec.calls[j - 1].o THEN {"the state changed between two operations"} ELSE {})}
           : j \in 1..Len(rec.calls)}

FilesFails(rec) ==
    LET all[j \in 0..Len(rec.calls)] == IF j = 0 THEN [f \in FM!Files |-> FM!NoFile] ELSE LET p == all[j - 1] IN IF FM!FEnabled(p, rec.calls[j].do) THEN FM!FAfter(p, rec.calls[j].do) ELSE p
    IN  UNION {{<<j, t>> : t \in FM!FileStepFails(all[j - 1], rec.calls[j])} : j \in 1..Len(rec.calls)}

OutputFails(rec) ==
    LET st[j \in 0..Len(rec.calls)] == IF j = 0 THEN OM!OInit ELSE OM!OAfter(st[j - 1], rec.calls[j].do)
    IN  UNION {{<<j, t>> : t \in OM!OutputStepFails(st[j - 1], rec.calls[j])} : j \in 1..Len(rec.calls)}

Verdict(rec, Fin, FinRes) ==
    CASE rec.kind = "rule"   -> RuleFails(rec, Fin, FinRes)
      [] rec.kind = "error"  -> {<<0, "unexpected exception: " \o rec.err>>}
      [] rec.kind = "valid"  -> ValidFails(rec)
      [] rec.kind = "agree"  -> AgreeFails(rec)
      [] rec.kind = "pair"   -> PairFails(rec)
      [] rec.kind = "refuse" -> RefuseFails(rec)
      [] rec.kind = "mono"   -> MonoFails(rec)
      [] rec.kind = "unan"   -> UnanFails(rec)
      [] rec.kind = "party"  -> PartyFails(rec)
      [] rec.kind = "join"   -> JoinFails(rec)
      [] rec.kind = "neglect" -> NeglectFails(rec)
      [] rec.kind = "across" -> AcrossFails(rec)
      [] rec.kind = "promote" -> PromoteFails(rec)
      [] rec.kind = "drop" -> DropFails(rec)
      [] rec.kind = "axiom"  -> AxiomFails(rec)
      [] rec.kind = "analysis" -> AnalysisFails(rec)
      [] rec.kind = "profile" -> HistoryFails(rec)
      [] rec.kind = "scores" -> ScoresFails(ElectionOf(rec), ToSet2(rec.W), rec.calls)
      [] rec.kind = "helpers" -> HelpersFails(rec)
      [] rec.kind = "generators" -> GeneratorsFails(rec)
      [] rec.kind = "preflib" -> PreflibFails(rec)
      [] rec.kind = "files" -> FilesFails(rec)
      [] rec.kind = "output" -> OutputFails(rec)
      [] rec.kind = "session" -> SessionFails(rec)
      [] rec.kind = "explain" -> ExplainFails(ElectionOf(rec), RuleOf(rec.rule), rec)
      [] rec.kind = "witness" -> LET E == ElectionOf(rec)  W == ToSet2(rec.W)
                                 IN  WitnessesFails(E, W, IF rec.q = "" THEN StdQuota(E, W) ELSE rec.q, rec)
      [] rec.kind = "validate" -> ValidateFails(rec)
      [] rec.kind = "propvalid" -> PropValidFails(rec)
=============================================================================
