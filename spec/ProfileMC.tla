----------------------------- MODULE ProfileMC -----------------------------
(***************************************************************************)
(* The profile machine explored exhaustively within small bounds.  Steps    *)
(* are checked as operations enabled in a state.  Monitor: the step judgement accepts   *)
(* what the machine does and rejects every perturbation of it.              *)
(***************************************************************************)
EXTENDS ProfileMachine, IOUtils
CONSTANTS MaxVoters, MaxTotal, M
VARIABLE s

Ws == IF IOEnv.DEPTH = "quick" THEN {"1/1", "2/1"} ELSE {"1/1", "2/1", "1/2"}
Base == [op |-> "", p |-> 0, q |-> 0, v |-> 0, i |-> 0, m |-> 0, c |-> 0, b |-> <<>>, bs |-> <<>>, vs |-> <<>>, w |-> "1/1",
         names |-> <<>>, name |-> "", how |-> ""]
Used == {1, 2}
Lists == {<<>>, <<0>>, <<M>>, <<-1>>, <<0, 0>>} \cup {SetToSeq(0..(M - 1))}
Ops ==
       {[Base EXCEPT !.op = "new", !.p = p, !.m = m, !.names = n] : p \in {1}, m \in {M, 0}, n \in {<<>>}}
  \cup {[Base EXCEPT !.op = "voter", !.v = 1, !.b = b, !.w = w] : b \in Lists, w \in Ws \cup {"0/1"}}
  \cup {[Base EXCEPT !.op = "add", !.p = p, !.v = v, !.b = b] : p \in Used, v \in {0, 1}, b \in Lists}
  \cup {[Base EXCEPT !.op = "addmany", !.p = p, !.bs = <<<<0>>, b>>] : p \in Used, b \in {<<>>, <<-1>>}}
  \cup {[Base EXCEPT !.op = "addvoters", !.p = p, !.vs = <<1, 1>>] : p \in Used}
  \cup {[Base EXCEPT !.op = "set", !.p = p, !.v = v, !.b = b, !.i = i] : p \in Used, v \in {0, 1}, b \in {<<0>>, <<0, 0>>}, i \in {-1, 0, 2}}
  \cup {[Base EXCEPT !.op = o, !.p = p] : o \in {"unit", "merge"}, p \in Used}
  \cup {[Base EXCEPT !.op = "copy", !.p = p, !.q = q, !.how = "copy"] : p \in Used, q \in Used}
  \cup {[Base EXCEPT !.op = "rename", !.p = p, !.i = 1, !.name = "z"] : p \in Used}
  \cup {[Base EXCEPT !.op = "editvoter", !.v = 1, !.c = 0, !.w = w] : w \in Ws}
  \cup {[Base EXCEPT !.op = "editentry", !.p = p, !.i = i, !.c = 0, !.w = w] : p \in Used, i \in {1, 2}, w \in Ws}

Init == s = InitState
Bounded(t) == \A p \in Slots : t.P[p].ex => Len(t.P[p].V) <= MaxVoters /\ RLe(Total(t.P[p].V), R(MaxTotal))
Next == \E op \in Ops : /\ Enabled(s, op)
                        /\ Bounded(After(s, op))
                        /\ s' = After(s, op)
Spec == Init /\ [][Next]_s

Live == {p \in Slots : s.P[p].ex}
(* ---------------------------------------------------------------- states *)
Sane == /\ \A p \in Live : \A x \in 1..Len(s.P[p].V) :
              s.P[p].V[x].a \subseteq 0..(s.P[p].m - 1) /\ RLt("0/1", s.P[p].V[x].w)
        /\ \A p \in Live : Len(s.P[p].names) = s.P[p].m
        /\ \A v \in Objs : s.V[v].ex => RLt("0/1", s.V[v].w)
(* conversions, wherever they are possible *)
ConversionsAgree == \A p \in Live : LET V == s.P[p].V  U == Units(V)  G == Merged(V) IN
    /\ IsMergedOf(V, G) /\ Merged(G) = G /\ Total(G) = Total(V) /\ PartyList(G) = PartyList(V) /\ Approved(G) = Approved(V)
    /\ (\A x \in 1..Len(V) : RIsInt(V[x].w)) =>
          /\ Unit(U) /\ Units(U) = U /\ Total(U) = Total(V) /\ Merged(U) = G
          /\ \A S \in Ballots(V) : WeightOf(U, S) = WeightOf(V, S)
    /\ \A S \in Ballots(V) : WeightOf(G, S) = WeightOf(V, S)

(* ----------------------------------------------------------------- steps *)
Refused(op) == Errors(s, op) # {}
Step(op) == LET t == After(s, op) IN
    (* one slot or one object at most *)
    /\ Cardinality({p \in Slots : t.P[p] # s.P[p]}) + Cardinality({v \in Objs : t.V[v] # s.V[v]}) <= 1
    /\ \A p \in Slots : t.P[p] # s.P[p] => p = (IF op.op = "copy" THEN op.q ELSE op.p)
    /\ \A v \in Objs : t.V[v] # s.V[v] => op.op \in {"voter", "editvoter"} /\ v = op.v
    (* refused operations change nothing, except that voters before the invalid one stay *)
    /\ Refused(op) /\ op.op \notin Keeps => t = s
    /\ op.op \in Keeps /\ Refused(op) => Len(t.P[op.p].V) < Len(s.P[op.p].V) + 2
    /\ op.op \in {"add", "addmany", "addvoters"} => IsPrefix(s.P[op.p].V, t.P[op.p].V)
    /\ op.op = "add" /\ ~ Refused(op) => Len(t.P[op.p].V) = Len(s.P[op.p].V) + 1
    /\ op.op = "set" => Len(t.P[op.p].V) = Len(s.P[op.p].V)
                        /\ Cardinality({x \in 1..Len(s.P[op.p].V) : t.P[op.p].V[x] # s.P[op.p].V[x]}) <= 1
    /\ op.op \in {"unit", "merge"} => Total(t.P[op.p].V) = Total(s.P[op.p].V) /\ Ballots(t.P[op.p].V) = Ballots(s.P[op.p].V)
    /\ op.op = "copy" => t.P[op.q] = s.P[op.p]
(* the judgement of recorded steps *)
Answers(p) == IF ~ p.ex THEN <<>> ELSE
              [len |-> Len(p.V), num_cand |-> p.m, total |-> Total(p.V), unit |-> Unit(p.V), party |-> PartyList(p.V),
               approved |-> SetToSeq(Approved(p.V)), str |-> StrOf(p), compact |-> CompactOf(p)]
Judged(op, cls, t) == StepFails(s, op, cls, t, [p \in Slots |-> Answers(t.P[p])], FALSE)
Perturbed(t) ==
    UNION { IF ~ t.P[p].ex THEN {} ELSE LET V == t.P[p].V IN
              {[t EXCEPT !.P[p].V = Append(V, [a |-> {0}, w |-> One])]}
         \cup {[t EXCEPT !.P[p].V = SubSeq(V, 1, x - 1) \o SubSeq(V, x + 1, Len(V))] : x \in 1..Len(V)}
         \cup {[t EXCEPT !.P[p].V[x].w = RAdd(@, "1/3")] : x \in 1..Len(V)}
         \cup {[t EXCEPT !.P[p].V[x].a = IF 0 \in @ THEN @ \ {0} ELSE @ \cup {0}] : x \in 1..Len(V)}
         \cup {[t EXCEPT !.P[p].m = @ + 1], [t EXCEPT !.P[p].names[1] = "other"], [t EXCEPT !.P[p] = NoP]}
          : p \in Slots }
    \cup UNION { IF ~ t.V[v].ex THEN {} ELSE {[t EXCEPT !.V[v].w = RAdd(@, One)], [t EXCEPT !.V[v].a = @ \cup {7}]} : v \in Objs }
Monitor(op) == LET t == After(s, op)
                   err == IF Errors(s, op) = {} THEN "" ELSE CHOOSE x \in Errors(s, op) : TRUE IN
    /\ Judged(op, err, t) = {}
    /\ Judged(op, IF err = "" THEN "ValueError" ELSE "", t) # {}
    /\ op.op # "merge" => \A o \in Perturbed(t) : Judged(op, err, o) # {}
    /\ op.op = "merge" => \A o \in {[t EXCEPT !.P[op.p].V = Append(@, [a |-> {0}, w |-> One])]} : Judged(op, err, o) # {}
Steps == \A op \in Ops : Enabled(s, op) => Step(op)
Monitored == ~ s.P[2].ex => \A op \in {x \in Ops : x.p # 2} : Enabled(s, op) => Monitor(op)
(* wrong answers to queries are noticed *)
QueriesMatter == \A p \in Live : LET r == Answers(s.P[p]) IN
    /\ QueryFails(s.P[p], r) = {}
    /\ \A x \in {[r EXCEPT !.len = @ + 1], [r EXCEPT !.total = RAdd(@, One)], [r EXCEPT !.unit = ~ @], [r EXCEPT !.party = ~ @],
                 [r EXCEPT !.str = @ \o "x"], [r EXCEPT !.compact = @ \o "x"], [r EXCEPT !.num_cand = @ + 1], [r EXCEPT !.approved = Append(@, 9)]} :
          QueryFails(s.P[p], x) # {}
=============================================================================
