------------------------------ MODULE FileGen ------------------------------
(* Generates histories of file operations (TLC simulation).                  *)
(* Weights and descriptions are tokens that the driver turns into values.    *)
EXTENDS FileMachine, Json
CONSTANT Depth
VARIABLES F, h
Pick(S) == RandomElement(S)
Chance(k) == Pick(1..100) <= k
Tokens == {"1", "1", "2", "3", "10", "f0.5", "f0.1", "f2.0", "f1.0", "f1e-07", "f1e+22", "f0.3333333333333333", "1/3", "1/2", "4/2", "22/7", "n3"}
Texts == {"", "", "plain text", "a: b # c", "yes", "null", "  lead", "- x", "{a}", "two~lines~", "x~ y~~z", "123", "~", "'q'", "@a %b"}
(* all voters equally heavy, weights that are 1 on average, and a single voter with another weight *)
Patterns == {<<"2">>, <<"1/2">>, <<"f2.0">>, <<"f1.0">>, <<"f1.0", "1">>, <<"2", "1/2", "1/2">>, <<"2", "f0.5", "f0.5">>, <<"3/2", "1/2">>, <<"f0.5", "f1.5">>, <<"1", "4/3", "2/3">>,
             <<"1", "1", "1", "1", "2">>, <<"1", "1", "1/2">>, <<"n1">>, <<"n1", "1">>}
Rules == {"av", "pav", "seqpav", "seqphragmen", "cc", "equal-shares", "revseqpav", "minimaxav", "eph", "sav", "consensus-rule", "maximin-support", "lexcc", "monroe"}
Ballot(m) == CHOOSE b \in {IF Chance(30) THEN Reverse(q) ELSE q : q \in {SetToSeq({c \in 0..(m - 1) : Chance(45)})}} : TRUE
Comp(k, m) == [rule |-> Pick(Rules), res |-> Pick({"absent", "true", "false"}), alg |-> Pick({"absent", "fastest", "first"}), max |-> IF Chance(20) THEN Pick(1..3) ELSE 0,
               kind |-> Pick({"absent", "none", "computed", "computed", "given"}),
               given |-> [x \in 1..Pick(0..2) |-> Ballot(m)], withprofile |-> Chance(30), withsize |-> Chance(30)]
(* the argument keeps TLC from evaluating the definition only once *)
Inst(f) == CHOOSE y \in {[m |-> m, V |-> [x \in 1..(IF pat # <<>> /\ Chance(50) THEN Len(pat) * Pick(1..2) ELSE Pick(0..6)) |-> [a |-> Ballot(m), w |-> IF uw THEN "1" ELSE IF pat # <<>> THEN pat[((x - 1) % Len(pat)) + 1] ELSE Pick(Tokens)]], k |-> k, desc |-> Pick(Texts), named |-> Chance(20),
                       comp |-> [x \in 1..Pick(0..2) |-> Comp(k, m)]]
                      : m \in {Pick({1, 2, 3, 4, 5, 12})}, uw \in {Chance(35)}, pat \in {IF Chance(40) THEN Pick(Patterns) ELSE <<>>}, k \in {IF Chance(30) THEN 0 ELSE Pick(1..3)}} : TRUE
Base == [op |-> "", f |-> 1, g |-> 1, i |-> 0, kind |-> "", fault |-> "", x |-> [m |-> 0]]
(* the abstract content of a file as far as the generator needs it *)
Abs(y) == [m |-> y.m, k |-> y.k, desc |-> "", V |-> [j \in 1..Len(y.V) |-> [a |-> y.V[j].a, w |-> "1/1"]],
           comp |-> [j \in 1..Len(y.comp) |-> [rule |-> "", params |-> <<>>, kind |-> "", result |-> <<>>, how |-> ""]]]
OpOf(r, f) ==
    CASE r <= 30 -> [Base EXCEPT !.op = "write", !.f = f, !.x = Inst(f), !.fault = IF Chance(12) THEN Pick({"norule", "otherprofile", "othersize"}) ELSE ""]
      [] r <= 55 -> [Base EXCEPT !.op = "read", !.f = f]
      [] r <= 67 -> [Base EXCEPT !.op = "rewrite", !.f = f, !.g = Pick(Files)]
      [] r <= 80 -> [Base EXCEPT !.op = "recompute", !.f = f, !.i = Pick(1..2)]
      [] OTHER   -> [Base EXCEPT !.op = "tamper", !.f = f, !.kind = Pick(Malformed \cup Invalid \cup Harmless \cup Harmless)]
GAfter(op) == IF op.op = "write" /\ op.fault = "" THEN [F EXCEPT ![op.f] = [st |-> "ok", x |-> Norm(Abs(op.x))]] ELSE FAfter(F, op)
Init == F = [f \in Files |-> NoFile] /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E r \in {Pick(1..100)}, f \in {Pick(Files)} : \E op \in {OpOf(r, f)} :
             IF FEnabled(F, op)
             THEN F' = GAfter(op) /\ h' = h \o (IF op.op = "tamper" THEN <<op, [Base EXCEPT !.op = "read", !.f = f]>> ELSE <<op>>)
             ELSE UNCHANGED <<F, h>>
Emit == Len(h) >= Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
