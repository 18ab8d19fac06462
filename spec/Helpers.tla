------------------------------ MODULE Helpers ------------------------------
(* Candidate sets, formatting, and helpers for lists of committees.          *)
(* Line breaks are written ~ in the records.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Text

HSet(s) == {s[j] : j \in 1..Len(s)}
HSets(s) == {HSet(s[j]) : j \in 1..Len(s)}
RECURSIVE HBinom(_, _)
HBinom(n, k) == IF k > n THEN "0/1" ELSE IF k = 0 THEN "1/1"
                ELSE RDiv(RMul(HBinom(n - 1, k - 1), RFrac(n, 1)), RFrac(k, 1))
(* names sorted as texts; no names: the numbers *)
HNames(S, names) == LET q == SetToSeq(S)
                   IN  SortStr([x \in 1..Len(q) |-> IF names = <<>> THEN ToString(q[x]) ELSE names[q[x] + 1]])
Fmt(S, names) == "{" \o Join(HNames(S, names), ", ") \o "}"
FmtList(s, names) == " " \o Join([j \in 1..Len(s) |-> Fmt(HSet(s[j]), names)], "~ ") \o "~"
FmtHeader(s, names, win) ==
    LET w == IF win THEN "winning committee" ELSE "committee" IN
    IF Len(s) = 0 THEN "No " \o w \o "s"
    ELSE ToString(Len(s)) \o " " \o w \o (IF Len(s) = 1 THEN "" ELSE "s") \o ":~" \o FmtList(s, names)
Rep(c, k) == Join([j \in 1..k |-> c], "")

(* elements: [t |-> "int", v |-> number] or [t |-> something else, v |-> 0] *)
Acceptable(c) ==
    LET e == c.elems IN
    /\ \A j \in 1..Len(e) : e[j].t = "int" /\ e[j].v >= 0 /\ (c.bound < 0 \/ e[j].v < c.bound)
    /\ \A i, j \in 1..Len(e) : i # j => e[i].v # e[j].v

Verified(actual, expected, res) == \* the error class, "" if the expectation is met
    IF res THEN (IF Len(actual) # 1 THEN "RuntimeError" ELSE IF HSet(actual[1]) \in HSets(expected) THEN "" ELSE "ValueError")
    ELSE IF HSets(actual) = HSets(expected) THEN "" ELSE "ValueError"

HDominates(A, X, Y) == LET u(v, W) == Cardinality(HSet(A[v]) \cap W) IN
    /\ \A v \in 1..Len(A) : u(v, X) >= u(v, Y)
    /\ \E v \in 1..Len(A) : u(v, X) > u(v, Y)

HelperFails(c) ==
    LET is(v) == IF c.cls # "" THEN {c.fn \o ": raised " \o c.cls} ELSE IF c.val = v THEN {} ELSE {c.fn \o ": wrong result"}
        raises(S) == IF c.cls = "" THEN {c.fn \o ": accepted what has to be refused"}
                     ELSE IF c.cls \in S THEN {} ELSE {c.fn \o ": refused with " \o c.cls}
    IN
    CASE c.fn \in {"CandidateSet", "Voter"} ->
              IF Acceptable(c) THEN (IF c.cls # "" THEN {c.fn \o ": refused a valid collection"}
                                     ELSE IF HSet(c.val) # {c.elems[j].v : j \in 1..Len(c.elems)} THEN {c.fn \o ": wrong elements"} ELSE {})
              ELSE raises({"ValueError", "TypeError"})
      [] c.fn \in {"str", "str_set_of_candidates", "str_with_names", "Voter.str_with_names", "Voter.str"} -> is(Fmt(HSet(c.set), c.names))
      [] c.fn = "str_sets_of_candidates" -> is(FmtList(c.sets, c.names))
      [] c.fn = "str_committees_with_header" -> is(FmtHeader(c.sets, c.names, c.win))
      [] c.fn = "header" -> is(Rep(c.sym, Len(c.text)) \o "~" \o c.text \o "~" \o Rep(c.sym, Len(c.text)) \o "~")
      [] c.fn = "hamming" -> is(Cardinality(HSet(c.set) \ HSet(c.set2)) + Cardinality(HSet(c.set2) \ HSet(c.set)))
      [] c.fn = "binom" -> is(HBinom(c.n, c.k))
      [] c.fn = "powerset" ->
              LET want == {S \in SUBSET HSet(c.set) : c.max < 0 \/ Cardinality(S) <= c.max} IN
              IF c.cls # "" THEN {"powerset: raised " \o c.cls}
              ELSE IF HSets(c.val) = want /\ Len(c.val) = Cardinality(want) /\ (\A j \in 1..Len(c.val) : Len(c.val[j]) = Cardinality(HSet(c.val[j])))
                   THEN {} ELSE {"powerset: wrong subsets"}
      [] c.fn = "sorted_committees" ->
              IF c.cls # "" THEN {"sorted_committees: raised " \o c.cls}
              ELSE (IF \E j \in 1..(Len(c.val) - 1) : ~ StrLe(Fmt(HSet(c.val[j]), <<>>), Fmt(HSet(c.val[j + 1]), <<>>)) THEN {"sorted_committees: not sorted"} ELSE {})
                   \cup (IF Len(c.val) # Len(c.sets) \/ \E S \in HSets(c.sets) \cup HSets(c.val) :
                              Cardinality({j \in 1..Len(c.val) : HSet(c.val[j]) = S}) # Cardinality({j \in 1..Len(c.sets) : HSet(c.sets[j]) = S})
                         THEN {"sorted_committees: different committees"} ELSE {})
      [] c.fn = "compare" -> IF c.badtype THEN raises({"ValueError"}) ELSE is(HSets(c.sets) = HSets(c.sets2))
      [] c.fn \in {"verify", "compute-result"} ->
              LET x == Verified(c.sets, c.sets2, c.res) IN
              IF x = "" THEN (IF c.cls # "" THEN {c.fn \o ": expected result refused with " \o c.cls} ELSE {})
              ELSE IF c.cls = "" THEN {c.fn \o ": wrong expectation accepted"} ELSE IF c.cls # x THEN {c.fn \o ": wrong error " \o c.cls} ELSE {}
      [] c.fn = "dominate" -> is(HDominates(c.A, HSet(c.set), HSet(c.set2)))
HelpersFails(rec) == UNION {{<<j, t>> : t \in HelperFails(rec.calls[j])} : j \in 1..Len(rec.calls)}
=============================================================================
