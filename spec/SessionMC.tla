----------------------------- MODULE SessionMC -----------------------------
(* Sessions on two profiles within small bounds: pure operations leave the   *)
(* state alone, and the step judgement notices every side effect and every   *)
(* dependence of a result on the history.                                    *)
EXTENDS SessionMachine
VARIABLE s
Base == [op |-> "", p |-> 0, q |-> 0, v |-> 0, i |-> 0, m |-> 0, c |-> 0, b |-> <<>>, bs |-> <<>>, vs |-> <<>>, w |-> "1/1",
         names |-> <<>>, name |-> "", how |-> "", rule |-> "", verb |-> 0]
Used == {1, 2}
Ops ==  {[Base EXCEPT !.op = "new", !.p = p, !.m = 2] : p \in Used}
   \cup {[Base EXCEPT !.op = "add", !.p = p, !.b = b] : p \in Used, b \in {<<0>>, <<0, 1>>}}
   \cup {[Base EXCEPT !.op = "editentry", !.p = p, !.i = 1, !.c = 1, !.w = w] : p \in Used, w \in {"1/1", "2/1"}}
   \cup {[Base EXCEPT !.op = o, !.p = p] : o \in {"unit", "merge"}, p \in Used}
   \cup {[Base EXCEPT !.op = "copy", !.p = p, !.q = 3 - p] : p \in Used}
   \cup {[Base EXCEPT !.op = "verbosity", !.verb = v] : v \in {0, 30}}
   \cup {[Base EXCEPT !.op = o, !.p = p] : o \in Pure, p \in Used}
Init == s = [P |-> [i \in Slots |-> NoP], V |-> [i \in Objs |-> NoV], verb |-> 30, settings |-> "s"]
Small(t) == \A p \in Used : t.P[p].ex => Len(t.P[p].V) <= 2 /\ RLe(Total(t.P[p].V), R(3))
Next == \E op \in Ops : SessionEnabled(s, op) /\ Small(SessionAfter(s, op)) /\ s' = SessionAfter(s, op)
Spec == Init /\ [][Next]_s
(* what an operation returns depends on the operation and its profile only *)
Answer(st, op) == ToString(<<op.op, st.P[op.p].V>>)
Rec(op) == [do |-> op, argsbefore |-> "a", argsafter |-> "a", det |-> TRUE, result |-> Answer(s, op), fresh |-> Answer(s, op), returned |-> Answer(s, op)]
PureOp(op) == op.op \in Pure
Steps == \A op \in Ops : SessionEnabled(s, op) =>
    LET t == SessionAfter(s, op) IN
    /\ PureOp(op) => t = s
    /\ op.op # "verbosity" => t.verb = s.verb
    /\ t.settings = s.settings
    /\ Cardinality({p \in Used : t.P[p] # s.P[p]}) <= 1
    (* an answer survives whatever happens to the other profile *)
    /\ \A x \in Ops : PureOp(x) /\ s.P[x.p].ex /\ t.P[x.p] = s.P[x.p] => Answer(t, x) = Answer(s, x)
SideEffects(t) == {[t EXCEPT !.verb = @ + 1], [t EXCEPT !.settings = "other"]}
    \cup UNION {IF t.P[p].ex THEN {[t EXCEPT !.P[p].V = Append(@, [a |-> {0}, w |-> "1/1"])], [t EXCEPT !.P[p].names[1] = "x"]}
                                   \cup {[t EXCEPT !.P[p].V[x].w = RAdd(@, "1/7")] : x \in 1..Len(t.P[p].V)} ELSE {} : p \in Used}
Monitored == \A op \in Ops : SessionEnabled(s, op) =>
    LET t == SessionAfter(s, op)  r == IF PureOp(op) THEN Rec(op) ELSE [do |-> op] IN
    /\ SessionStepFails(s, r, t) = {}
    /\ \A o \in SideEffects(t) : (op.op = "merge" /\ o.P[op.p] # t.P[op.p]) \/ SessionStepFails(s, r, o) # {}
    /\ PureOp(op) => \A l \in {[r EXCEPT !.argsafter = "b"], [r EXCEPT !.fresh = "other"], [r EXCEPT !.returned = "other"]} : SessionStepFails(s, l, t) # {}
=============================================================================
