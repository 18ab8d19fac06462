----------------------------- MODULE Validation -----------------------------
(***************************************************************************)
(* Which calls are legal.  The documented algorithms and resolute values of *)
(* every rule, the faults a call may have with the error class each of them *)
(* leads to, and the same for the property checks.  A call with faults must *)
(* raise the class of one of them, a call without faults must return.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL RangeOf(s) == {s[x] : x \in 1..Len(s)}

Frac    == {"float-fractions", "gmpy2-fractions", "standard-fractions"}
ThieleA == {"gurobi", "mip-gurobi", "mip-cbc", "branch-and-bound", "brute-force"}
MonroeA == {"gurobi", "mip-gurobi", "mip-cbc", "ortools-cp", "brute-force"}
OptF == <<"False", "True">>      \* optimisation-based rules: the first value is the default
SeqF == <<"True", "False">>
Only == <<"True">>

Table == [
  av |-> <<{"standard"}, OptF>>, sav |-> <<{"standard"}, OptF>>, trivial |-> <<{"standard"}, OptF>>,
  pav |-> <<ThieleA, OptF>>, slav |-> <<ThieleA, OptF>>, geom2 |-> <<ThieleA, OptF>>,
  lexcc |-> <<{"gurobi", "brute-force"}, OptF>>, lexminimaxav |-> <<{"gurobi", "brute-force"}, OptF>>,
  cc |-> <<ThieleA \cup {"ortools-cp"}, OptF>>,
  seqpav |-> <<{"standard"}, SeqF>>, seqslav |-> <<{"standard"}, SeqF>>, seqcc |-> <<{"standard"}, SeqF>>,
  seqgeom2 |-> <<{"standard"}, SeqF>>, revseqpav |-> <<{"standard"}, SeqF>>, revseqslav |-> <<{"standard"}, SeqF>>,
  revseqcc |-> <<{"standard"}, SeqF>>, revseqgeom2 |-> <<{"standard"}, SeqF>>,
  seqphragmen |-> <<Frac, SeqF>>, eph |-> <<Frac, OptF>>,
  minimaxphragmen |-> <<{"gurobi", "mip-gurobi", "mip-cbc"}, OptF>>, leximaxphragmen |-> <<{"gurobi"}, OptF>>,
  monroe |-> <<MonroeA, OptF>>, minimaxav |-> <<MonroeA, OptF>>, rsd |-> <<{"standard"}, Only>>]
Table2 == (* names that are no TLA+ identifiers *)
    [x \in {"equal-shares", "rule-x", "equal-shares-with-seqphragmen-completion", "equal-shares-with-av-completion",
            "equal-shares-without-completion", "rule-x-without-phragmen-phase", "equal-shares-without-phragmen-phase",
            "phragmen-enestroem", "consensus-rule"} |-> <<Frac, SeqF>>]
    @@ ("equal-shares-with-increment-completion" :> <<Frac, Only>>)
    @@ ("maximin-support" :> <<{"gurobi", "mip-gurobi", "mip-cbc"}, SeqF>>)
    @@ ("greedy-monroe" :> <<{"standard"}, Only>>)
    @@ ("geom3/2" :> <<ThieleA, OptF>>) @@ ("geom1.5" :> <<ThieleA, OptF>>) @@ ("geom10" :> <<ThieleA, OptF>>)
    @@ ("seqgeom3/2" :> <<{"standard"}, SeqF>>) @@ ("revseqgeom1.5" :> <<{"standard"}, SeqF>>)
Rules == Table @@ Table2
Known(name) == name \in DOMAIN Rules
Algs(name) == Rules[name][1]
ResValues(name) == Rules[name][2]
UnitOnlyRules == {"monroe", "greedy-monroe", "lexminimaxav", "rsd"}
MayBeShort == {"equal-shares-without-completion", "rule-x-without-phragmen-phase", "equal-shares-without-phragmen-phase"}

BadMax == {"0", "-1", "str", "float", "list"}
ResOf(c) == IF c.res = "default" THEN ResValues(c.name)[1] ELSE c.res
(* rsd is the one rule whose limit defaults to None without a module constant; the default is no limit everywhere *)
Unlimited == {"default", "none"}

Faults(p, c) ==
    IF ~ Known(c.name) THEN {"ValueError"}
    ELSE (IF c.k < 1 \/ c.k > p.m \/ p.n = 0 THEN {"ValueError"} ELSE {})
         \cup (IF c.alg \notin Algs(c.name) \cup {"default", "fastest"} THEN {"ValueError"} ELSE {})
         \cup (IF ResOf(c) \notin RangeOf(ResValues(c.name)) THEN {"NotImplementedError"} ELSE {})
         \cup (IF c.max \in BadMax THEN {"ValueError"} ELSE {})
         \cup (IF c.max \notin Unlimited /\ ResOf(c) # "False" THEN {"ValueError"} ELSE {})
         \cup (IF c.name \in UnitOnlyRules /\ ~ p.unit THEN {"ValueError"} ELSE {})
         \cup (IF c.name = "cc" /\ c.alg = "ortools-cp" /\ ~ p.intw THEN {"TypeError", "ValueError"} ELSE {})

LOCAL ToSet3(s) == RangeOf(s)
WellFormed(p, c) ==
    /\ Len(c.out) > 0
    /\ \A x \in RangeOf(c.out) : /\ ToSet3(x) \subseteq 0..(p.m - 1) /\ Cardinality(ToSet3(x)) = Len(x)
                                 /\ (Len(x) = c.k \/ (c.name \in MayBeShort /\ Len(x) < c.k))
    /\ (ResOf(c) = "True") => Len(c.out) = 1
    /\ (c.max = "2") => Len(c.out) <= 2
    /\ (c.max = "1") => Len(c.out) = 1

Describe(c) == c.name \o "/" \o c.entry \o " alg=" \o c.alg \o " res=" \o c.res \o " max=" \o c.max
CallVerdict(p, c) ==
    LET f == Faults(p, c) IN
    IF f # {} THEN (IF c.cls = "" THEN {"accepted an invalid call: " \o Describe(c)}
                    ELSE IF c.cls \notin f THEN {"refused with " \o c.cls \o ": " \o Describe(c)} ELSE {})
    ELSE IF c.cls # "" THEN {"refused a valid call (" \o c.cls \o "): " \o Describe(c)}
    ELSE IF ~ WellFormed(p, c) THEN {"result of a valid call is malformed: " \o Describe(c)} ELSE {}
ValidateFails(rec) == UNION {{<<j, t>> : t \in CallVerdict(rec, rec.calls[j])} : j \in 1..Len(rec.calls)}

(* property checks *)
Props == {"pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "priceability", "stable-priceability", "core"}
NoQuota == {"pareto", "priceability", "stable-priceability"}
PropAlgs(p) == IF p \in {"priceability", "stable-priceability"} THEN {"gurobi"} ELSE {"gurobi", "brute-force"}
PropFaults(p, c) ==
    IF c.prop \notin Props THEN {"ValueError"}
    ELSE (IF c.prop \in NoQuota /\ c.quota THEN {"ValueError"} ELSE {})
         \cup (IF c.alg \notin PropAlgs(c.prop) \cup {"default", "fastest"} /\ c.prop \notin {"jr", "ejr+"} THEN {"NotImplementedError"} ELSE {})
         \cup (IF \E x \in RangeOf(c.W) : x >= p.m THEN {"ValueError"} ELSE {})
         \cup (IF \E x \in RangeOf(c.W) : x < 0 THEN {"ValueError"} ELSE {})
PropVerdict(p, c) ==
    LET f == PropFaults(p, c)
        d == c.prop \o " alg=" \o c.alg
    IN  IF f # {} THEN (IF c.cls = "" THEN {"accepted an invalid check: " \o d}
                        ELSE IF c.cls \notin f THEN {"check refused with " \o c.cls \o ": " \o d} ELSE {})
        ELSE IF c.cls # "" THEN {"refused a valid check (" \o c.cls \o "): " \o d} ELSE {}
PropValidFails(rec) == UNION {{<<j, t>> : t \in PropVerdict(rec, rec.calls[j])} : j \in 1..Len(rec.calls)}
=============================================================================
