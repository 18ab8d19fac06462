--------------------------- MODULE ProfileMachine ---------------------------
(***************************************************************************)
(* Profiles, voters and copies as a state machine.                         *)
(* State: P, the profile slots, and V, the voter objects a client holds.   *)
(* A profile owns its entries: no operation on one profile or voter object *)
(* changes another one.                                                    *)
(* Post(s, op, o) is the set of clauses violated when operation op leads   *)
(* from state s to the observed state o.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Text

NoP == [ex |-> FALSE]
NoV == [ex |-> FALSE]
Slots == 1..3
Objs  == 1..2
InitState == [P |-> [i \in Slots |-> NoP], V |-> [i \in Objs |-> NoV]]

SetOf(q) == {q[x] : x \in 1..Len(q)}
ValidSet(q) == Cardinality(SetOf(q)) = Len(q) /\ \A c \in SetOf(q) : c >= 0
ValidBallot(q, m) == ValidSet(q) /\ \A c \in SetOf(q) : c < m
Entry(q, w) == [a |-> SetOf(q), w |-> w]
One == "1/1"

RECURSIVE Sum(_, _)
Sum(V, j) == IF j = 0 THEN "0/1" ELSE RAdd(Sum(V, j - 1), V[j].w)
Total(V) == Sum(V, Len(V))
Unit(V) == \A x \in 1..Len(V) : V[x].w = One
PartyList(V) == \A x, y \in 1..Len(V) : V[x].a \cap V[y].a = {} \/ V[x].a = V[y].a
Approved(V) == UNION {V[x].a : x \in 1..Len(V)}
WeightOf(V, S) == LET RECURSIVE f(_)
                      f(j) == IF j = 0 THEN "0/1" ELSE IF V[j].a = S THEN RAdd(f(j - 1), V[j].w) ELSE f(j - 1)
                  IN  f(Len(V))
Ballots(V) == {V[x].a : x \in 1..Len(V)}
(* position of the first voter with that ballot *)
First(V, S) == CHOOSE x \in 1..Len(V) : V[x].a = S /\ \A y \in 1..(x - 1) : V[y].a # S
Units(V) == \* unit-weight copies, in order
    LET RECURSIVE f(_)
        f(j) == IF j = 0 THEN <<>> ELSE f(j - 1) \o [x \in 1..RFloor(V[j].w) |-> [a |-> V[j].a, w |-> One]]
    IN  f(Len(V))
IsMergedOf(V, U) == /\ Len(U) = Cardinality(Ballots(V)) /\ Ballots(U) = Ballots(V)
                    /\ \A x \in 1..Len(U) : U[x].w = WeightOf(V, U[x].a)
Merged(V) == \* one of the possible orders
    LET order == SortSeq(SetToSeq(Ballots(V)), LAMBDA S, T : First(V, S) < First(V, T))
    IN  [x \in 1..Len(order) |-> [a |-> order[x], w |-> WeightOf(V, order[x])]]

(* ------------------------------------------------------------- operations *)
(* the voter that add/set receive: a voter object or a plain list *)
Given(s, op) == IF op.v > 0 THEN s.V[op.v] ELSE [ex |-> TRUE, a |-> SetOf(op.b), w |-> One]
GivenOK(s, op, m) == IF op.v > 0 THEN \A c \in s.V[op.v].a : c < m ELSE ValidBallot(op.b, m)
Fits(g, m) == [a |-> g.a, w |-> g.w]
PyIndex(i, n) == IF i >= 0 THEN i + 1 ELSE n + i + 1
NamesOf(op) == IF op.names = <<>> THEN [x \in 1..op.m |-> ToString(x - 1)] ELSE SubSeq(op.names, 1, op.m)

(* operations are total: what they refuse, and the state that follows *)
Errors(s, op) ==
    CASE op.op = "new" -> IF op.m <= 0 \/ (op.names # <<>> /\ Len(op.names) < op.m) THEN {"ValueError"} ELSE {}
      [] op.op = "voter" -> IF ValidSet(op.b) /\ RLt("0/1", op.w) THEN {} ELSE {"ValueError"}
      [] op.op = "add" -> IF GivenOK(s, op, s.P[op.p].m) THEN {} ELSE {"ValueError"}
      [] op.op = "addmany" -> IF \A x \in 1..Len(op.bs) : ValidBallot(op.bs[x], s.P[op.p].m) THEN {} ELSE {"ValueError"}
      [] op.op = "addvoters" -> IF \A x \in 1..Len(op.vs) : \A c \in s.V[op.vs[x]].a : c < s.P[op.p].m THEN {} ELSE {"ValueError"}
      [] op.op = "set" -> LET n == Len(s.P[op.p].V) IN
                          (IF PyIndex(op.i, n) \in 1..n THEN {} ELSE {"IndexError"})
                          \cup (IF GivenOK(s, op, s.P[op.p].m) THEN {} ELSE {"ValueError"})
      [] op.op = "unit" -> IF \A x \in 1..Len(s.P[op.p].V) : RIsInt(s.P[op.p].V[x].w) THEN {} ELSE {"TypeError"}
      [] OTHER -> {}

Valid(bs, m) == LET RECURSIVE f(_)
                    f(j) == IF j = Len(bs) \/ ~ ValidBallot(bs[j + 1], m) THEN j ELSE f(j + 1)
                IN  f(0)
ValidV(s, vs, m) == LET RECURSIVE f(_)
                        f(j) == IF j = Len(vs) \/ (\E c \in s.V[vs[j + 1]].a : c >= m) THEN j ELSE f(j + 1)
                    IN  f(0)
(* the voters of profile op.p afterwards (conversion to merged weights leaves the order open) *)
NewVoters(s, op, V, m) ==
    CASE op.op = "add" -> Append(V, Fits(Given(s, op), m))
      [] op.op = "addmany" -> V \o [x \in 1..Valid(op.bs, m) |-> Entry(op.bs[x], One)]
      [] op.op = "addvoters" -> V \o [x \in 1..ValidV(s, op.vs, m) |-> Fits(s.V[op.vs[x]], m)]
      [] op.op = "set" -> [V EXCEPT ![PyIndex(op.i, Len(V))] = Fits(Given(s, op), m)]
      [] op.op = "unit" -> Units(V)
      [] op.op = "merge" -> Merged(V)
      [] op.op = "editentry" -> [V EXCEPT ![op.i] = [a |-> @.a \cup {op.c}, w |-> op.w]]
      [] OTHER -> V
OnProfile == {"add", "addmany", "addvoters", "set", "unit", "merge", "editentry"}
Keeps == {"addmany", "addvoters"}        \* these keep the part before the invalid voter

After(s, op) ==
    LET bad == Errors(s, op) # {} IN
    IF bad /\ op.op \notin Keeps THEN s
    ELSE CASE op.op = "new" -> [s EXCEPT !.P[op.p] = [ex |-> TRUE, m |-> op.m, names |-> NamesOf(op), V |-> <<>>]]
           [] op.op = "voter" -> [s EXCEPT !.V[op.v] = [ex |-> TRUE, a |-> SetOf(op.b), w |-> op.w]]
           [] op.op \in OnProfile -> [s EXCEPT !.P[op.p].V = NewVoters(s, op, @, s.P[op.p].m)]
           [] op.op = "copy" -> [s EXCEPT !.P[op.q] = s.P[op.p]]
           [] op.op = "rename" -> [s EXCEPT !.P[op.p].names[op.i] = op.name]
           [] op.op = "editvoter" -> [s EXCEPT !.V[op.v].a = @ \cup {op.c}, !.V[op.v].w = op.w]
           [] OTHER -> s

Enabled(s, op) ==
    /\ (op.op \in OnProfile \cup {"copy", "rename"} => s.P[op.p].ex)
    /\ (op.op = "editvoter" => s.V[op.v].ex)
    /\ (op.op \in {"add", "set"} /\ op.v > 0 => s.V[op.v].ex)
    /\ (op.op = "addvoters" => \A x \in 1..Len(op.vs) : s.V[op.vs[x]].ex)
    /\ (op.op = "rename" => op.i \in 1..s.P[op.p].m)
    /\ (op.op = "editentry" => op.i \in 1..Len(s.P[op.p].V))

(* --------------------------------------------------------------- queries *)
NameSet(S, names) == LET q == SetToSeq(S)
                     IN  "{" \o Join(SortStr([x \in 1..Len(q) |-> names[q[x] + 1]]), ", ") \o "}"
Pad(t, k) == IF Len(t) >= k THEN t ELSE t \o SubSeq("          ", 1, k - Len(t))
Head0(p) == (IF Unit(p.V) THEN "" ELSE "weighted ") \o "profile with " \o ToString(Len(p.V)) \o " voters and "
            \o ToString(p.m) \o " candidates"
StrOf(p) ==
    LET line(x) == " voter " \o Pad(ToString(x - 1) \o ":", 4) \o " "
                   \o (IF Unit(p.V) THEN "" ELSE RStr(p.V[x].w) \o " * ") \o NameSet(p.V[x].a, p.names)
    IN  IF p.V = <<>> THEN Head0(p) ELSE Head0(p) \o ":~" \o Join([x \in 1..Len(p.V) |-> line(x)], ",~")
CompactOf(p) ==
    LET U == Merged(p.V)
        line(x) == " " \o RStr(U[x].w) \o " x " \o NameSet(U[x].a, p.names)
    IN  (IF p.V = <<>> THEN Head0(p) ELSE Head0(p) \o ":~" \o Join([x \in 1..Len(U) |-> line(x)], ",~"))
        \o (IF Unit(p.V) THEN "" ELSE "~total weight: " \o RStr(Total(p.V))) \o "~"

(* what a profile reports about itself agrees with its entries *)
QueryFails(p, r) ==
       (IF r.len # Len(p.V) THEN {"len() is wrong"} ELSE {})
  \cup (IF r.num_cand # p.m THEN {"num_cand is wrong"} ELSE {})
  \cup (IF r.total # Total(p.V) THEN {"total_weight() is wrong"} ELSE {})
  \cup (IF r.unit # Unit(p.V) THEN {"has_unit_weights() is wrong"} ELSE {})
  \cup (IF r.party # PartyList(p.V) THEN {"is_party_list() is wrong"} ELSE {})
  \cup (IF SetOf(r.approved) # Approved(p.V) \/ Cardinality(SetOf(r.approved)) # Len(r.approved) THEN {"approved_candidates() is wrong"} ELSE {})
  \cup (IF r.str # StrOf(p) THEN {"str() is wrong"} ELSE {})
  \cup (IF r.compact # CompactOf(p) THEN {"str_compact() is wrong"} ELSE {})

(* ----------------------------------------------- conformance of one step *)
(* o is the observed state after the operation; the order of merged ballots is adopted from it *)
SlotFails(exp, obs, op, j, free) ==
    IF exp.ex # obs.ex THEN {"profile appears or vanishes"}
    ELSE IF ~ exp.ex THEN {}
    ELSE (IF exp.m # obs.m THEN {"number of candidates changed"} ELSE {})
         \cup (IF exp.names # obs.names THEN {IF op.op = "copy" /\ op.q = j THEN "copy: candidate names differ"
                                             ELSE "candidate names of profile are wrong after " \o op.op} ELSE {})
         \cup (IF free THEN (IF IsMergedOf(exp.V, obs.V) THEN {} ELSE {"merge: wrong ballots or weights"})
               ELSE IF exp.V # obs.V THEN {op.op \o ": voters of " \o (IF op.p = j THEN "this" ELSE "another") \o " profile are wrong"} ELSE {})
(* soft: integral weights that are not of an integer type; the conversion to copies may refuse them *)
StepFails(s, op, cls, o, queries, soft) ==
    IF ~ Enabled(s, op) THEN {}
    ELSE LET refused == soft /\ op.op = "unit" /\ cls = "TypeError"
             errs == IF refused THEN {"TypeError"} ELSE Errors(s, op)
             exp == IF refused THEN s ELSE After(s, op)
             merged(j) == op.op = "merge" /\ op.p = j
         IN  (IF errs = {} /\ cls # "" THEN {op.op \o ": refused with " \o cls}
              ELSE IF errs # {} /\ cls = "" THEN {op.op \o ": invalid operation accepted"}
              ELSE IF errs # {} /\ cls \notin errs THEN {op.op \o ": refused with " \o cls} ELSE {})
             \cup UNION {SlotFails(exp.P[j], o.P[j], op, j, merged(j)) : j \in Slots}
             \cup (IF exp.V # o.V THEN {op.op \o ": a voter object of the client changed"} ELSE {})
             \cup UNION {IF o.P[j].ex THEN QueryFails(o.P[j], queries[j]) ELSE {} : j \in Slots}
=============================================================================
