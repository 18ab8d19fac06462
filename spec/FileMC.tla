------------------------------- MODULE FileMC -------------------------------
(* The file store explored exhaustively for a few instances, and its step    *)
(* judgement: truthful records pass, every kind of lie is noticed.           *)
EXTENDS FileMachine
VARIABLE F
Comp(rule, kind, res, how) == [rule |-> rule, params |-> <<>>, kind |-> kind, result |-> res, how |-> how]
Inst(V, k, desc, comp) == [m |-> 3, V |-> V, k |-> k, desc |-> desc, comp |-> comp]
Vt(a, w) == [a |-> a, w |-> w]
Instances == { Inst(<<>>, 0, "", <<>>),
               Inst(<<Vt(<<1, 0>>, "1/1"), Vt(<<>>, "1/1")>>, 2, "d", <<>>),
               Inst(<<Vt(<<2>>, "1/2"), Vt(<<2>>, "3/1")>>, 1, "", <<Comp("av", "list", << <<2>> >>, "computed")>>),
               Inst(<<Vt(<<0>>, "1/1")>>, 1, "", <<Comp("av", "list", << <<0>> >>, "given"), Comp("pav", "absent", <<>>, "given")>>) }
Base == [op |-> "", f |-> 1, g |-> 1, i |-> 0, kind |-> "", fault |-> "", x |-> [m |-> 0]]
Ops ==  {[Base EXCEPT !.op = "write", !.f = f, !.x = x, !.fault = t] : f \in Files, x \in Instances, t \in {"", "norule"}}
   \cup {[Base EXCEPT !.op = "read", !.f = f] : f \in Files}
   \cup {[Base EXCEPT !.op = "rewrite", !.f = f, !.g = g] : f \in Files, g \in Files}
   \cup {[Base EXCEPT !.op = "recompute", !.f = f, !.i = i] : f \in Files, i \in 1..2}
   \cup {[Base EXCEPT !.op = "tamper", !.f = f, !.kind = k] : f \in Files, k \in Malformed \cup Invalid \cup Harmless}
Init == F = [f \in Files |-> NoFile]
Next == \E op \in Ops : FEnabled(F, op) /\ F' = FAfter(F, op)
Spec == Init /\ [][Next]_F

TypeOK == \A f \in Files : F[f].st \in {"none", "bad", "ok"}
Valid == \A f \in Files : F[f].st = "ok" => LET x == F[f].x IN
            /\ Approved(x) \subseteq 0..(x.m - 1)
            /\ \A j \in 1..Len(x.V) : RLt("0/1", x.V[j].w)
            /\ \A j \in 1..Len(x.comp) : Recomputes(x, j) => x.k > 0
Step(op) == LET G == FAfter(F, op) IN
    /\ Cardinality({f \in Files : G[f] # F[f]}) <= 1
    /\ FErrors(F, op) # {} => G = F
    /\ op.op \in {"read", "recompute"} => G = F
    /\ op.op = "write" /\ op.fault = "" => G[op.f].st = "ok" /\ Differences(Norm(op.x), G[op.f].x) = {}
    (* writing what was read loses nothing *)
    /\ op.op = "rewrite" /\ F[op.f].st = "ok" => G[op.g] = F[op.f]
    /\ op.op = "tamper" /\ op.kind \in Malformed \cup Invalid => FErrors(G, [Base EXCEPT !.op = "read", !.f = op.f]) # {}
    /\ op.op = "tamper" /\ op.kind \in Harmless => FErrors(G, [Base EXCEPT !.op = "read", !.f = op.f]) = {}

(* records of a step: digests stand for the contents *)
Seqs(x) == [x EXCEPT !.V = [j \in 1..Len(x.V) |-> [x.V[j] EXCEPT !.a = SetToSeq(@)]],
                     !.comp = [j \in 1..Len(x.comp) |-> [x.comp[j] EXCEPT !.result = [t \in 1..Len(@) |-> SetToSeq(@[t])]]]]
Rec(op, G) ==
    LET errs == FErrors(F, op)
        cls == IF errs = {} THEN "" ELSE IF errs = {"any"} THEN "KeyError" ELSE CHOOSE e \in errs : TRUE
        ok == op.op = "read" /\ errs = {} IN
    [do |-> op, cls |-> cls, before |-> [f \in Files |-> ToString(F[f])], after |-> [f \in Files |-> ToString(G[f])],
     argsbefore |-> "x", argsafter |-> "x", linked |-> TRUE,
     x |-> IF ok THEN Seqs(F[op.f].x) ELSE [m |-> 0],
     out |-> IF op.op = "recompute" /\ F[op.f].st = "ok" /\ Recomputes(F[op.f].x, op.i) THEN Seqs(F[op.f].x).comp[op.i].result ELSE <<>>]
Lies(op, r) ==
    LET read == op.op = "read" /\ r.cls = ""
        wrong(y) == [r EXCEPT !.x = y] IN
       {[r EXCEPT !.argsafter = "y"]}
  \cup (IF FErrors(F, op) = {"any"} \/ op.op = "recompute" THEN {} ELSE {[r EXCEPT !.cls = IF @ = "" THEN "OSError" ELSE "Other"]})
  \cup (IF r.cls # "" THEN {[r EXCEPT !.cls = ""]} ELSE {})
  \cup (IF op.op \in {"read", "recompute"} \/ r.cls # "" THEN {[r EXCEPT !.after[op.f] = "changed"]} ELSE {})
  \cup (IF op.op # "tamper" THEN {[r EXCEPT !.after[3 - (IF op.op = "rewrite" THEN op.g ELSE op.f)] = "changed"]} ELSE {[r EXCEPT !.after[3 - op.f] = "changed"]})
  \cup (IF read THEN {wrong([r.x EXCEPT !.m = @ + 1]), wrong([r.x EXCEPT !.k = @ + 1]), wrong([r.x EXCEPT !.desc = @ \o "x"]),
                      wrong([r.x EXCEPT !.V = Append(@, Vt(<<0>>, "1/1"))]), [r EXCEPT !.linked = FALSE]}
                     \cup {wrong([r.x EXCEPT !.V[j].w = RAdd(@, "1/10")]) : j \in 1..Len(r.x.V)}
                     \cup {wrong([r.x EXCEPT !.V[j].a = IF @ = <<>> THEN <<0>> ELSE Tail(@)]) : j \in 1..Len(r.x.V)}
                     \cup {wrong([r.x EXCEPT !.comp = SubSeq(@, 1, Len(@) - 1)]) : j \in 1..(IF r.x.comp = <<>> THEN 0 ELSE 1)}
                     \cup {wrong([r.x EXCEPT !.comp[j].result = Append(@, <<1>>)]) : j \in 1..Len(r.x.comp)}
                     \cup {wrong([r.x EXCEPT !.comp[j].rule = "other"]) : j \in 1..Len(r.x.comp)} ELSE {})
  \cup (IF op.op = "recompute" /\ r.out # <<>> THEN {[r EXCEPT !.out = << <<1>> >>], [r EXCEPT !.cls = "ValueError"]} ELSE {})
Steps == \A op \in Ops : FEnabled(F, op) => Step(op)
Monitored == \A op \in Ops : FEnabled(F, op) =>
    LET r == Rec(op, FAfter(F, op)) IN FileStepFails(F, r) = {} /\ \A l \in Lies(op, r) : FileStepFails(F, l) # {}
=============================================================================
