------------------------------ MODULE OutputMC ------------------------------
(* The output machine explored exhaustively over its levels and a few texts; *)
(* the step judgement accepts truthful records and notices every lie.        *)
EXTENDS OutputMachine
VARIABLE s
Base == [op |-> "", verb |-> 0, level |-> "info", text |-> "", wrap |-> TRUE, indent |-> "", kind |-> "", no |-> 0]
Names == {"critical", "error", "warning", "info", "details", "debug", "debug2"}
Texts == {"a", "two words", "line~break", "well-known"}
Ops ==  {[Base EXCEPT !.op = "verbosity", !.verb = v] : v \in {51, 50, 40, 30, 25, 20, 15, 12, 10, 5, 0}}
   \cup {[Base EXCEPT !.op = o] : o \in {"default", "attach", "detach"}}
   \cup {[Base EXCEPT !.op = "message", !.level = l, !.text = t, !.wrap = w, !.indent = i] : l \in Names, t \in Texts, w \in BOOLEAN, i \in {"", "  "}}
   \cup {[Base EXCEPT !.op = o] : o \in {"analysis", "compute"}}
Init == s = OInit
Next == \E op \in Ops : s' = OAfter(s, op)
Spec == Init /\ [][Next]_s
(* more important messages are printed whenever less important ones are; raising the verbosity level never prints more *)
Shown(l, v) == LevelOf(l) >= v
Ordered == /\ \A a, b \in Names : LevelOf(a) <= LevelOf(b) /\ Shown(a, s.verb) => Shown(b, s.verb)
           /\ \A v \in {50, 40, 30, 20, 15, 10, 5, 0} : v <= s.verb => \A a \in Names : Shown(a, s.verb) => Shown(a, v)
Indented(t, i) == Join([j \in 1..Len(Lines(t)) |-> i \o Lines(t)[j]], "~")
Values == << <<"jr", "True">>, <<"ejr+", "False">> >>
AnalysisText == Pad50(Title("jr")) \o " : True~" \o Pad50(Title("ejr+")) \o " : False~"
Rec(op) ==
    LET lev == LevelOf(op.level)
        msg == op.op = "message" IN
    [do |-> op, cls |-> "", obs |-> [verb |-> OAfter(s, op).verb], expectfail |-> FALSE, values |-> Values,
     out |-> CASE msg -> IF lev < s.verb THEN "" ELSE (IF op.wrap THEN Indented(op.text, op.indent) ELSE op.text) \o "~"
               [] op.op = "analysis" -> IF s.verb <= 20 THEN AnalysisText ELSE ""
               [] op.op = "compute" -> IF s.verb <= 20 THEN "result~" ELSE ""
               [] OTHER -> "",
     log |-> CASE msg /\ s.logger -> <<[level |-> LogLevel(lev), text |-> op.text]>>
               [] op.op = "compute" /\ s.logger -> <<[level |-> 20, text |-> "result"]>>
               [] OTHER -> <<>>]
Lies(op, r) ==
       {[r EXCEPT !.obs.verb = @ + 1]}
  \cup (IF op.op = "message" THEN {[r EXCEPT !.cls = "KeyError"], [r EXCEPT !.out = IF @ = "" THEN op.text \o "~" ELSE ""],
                                   [r EXCEPT !.log = IF @ = <<>> THEN <<[level |-> 20, text |-> op.text]>> ELSE <<>>]}
                                  \cup (IF r.out # "" THEN {[r EXCEPT !.out = "x" \o @]} ELSE {})
                                  \cup (IF s.logger THEN {[r EXCEPT !.log = r.log \o r.log], [r EXCEPT !.log[1].level = @ + 10], [r EXCEPT !.log[1].text = @ \o " x"]} ELSE {}) ELSE {})
  \cup (IF op.op = "analysis" THEN {[r EXCEPT !.cls = "KeyError"]} \cup (IF s.verb <= 50 THEN {[r EXCEPT !.out = @ \o "x"]} ELSE {}) ELSE {})
  \cup (IF op.op = "compute" THEN (IF (s.logger /\ (s.verb > 15 \/ s.verb <= 5)) \/ s.verb > 30 THEN {[r EXCEPT !.out = @ \o "x"]} ELSE {}) ELSE {})
  \cup (IF op.op \in {"verbosity", "default", "attach", "detach"} THEN {[r EXCEPT !.out = "x~"], [r EXCEPT !.log = <<[level |-> 20, text |-> "x"]>>]} ELSE {})
Steps == \A op \in Ops : LET t == OAfter(s, op) IN
    /\ op.op \in {"message", "analysis", "compute"} => t = s
    /\ op.op \in {"attach", "detach"} => t.verb = s.verb /\ t.logger = (op.op = "attach")
    /\ op.op \in {"verbosity", "default"} => t.logger = s.logger
Monitored == \A op \in Ops : LET r == Rec(op) IN OutputStepFails(s, r) = {} /\ \A l \in Lies(op, r) : OutputStepFails(s, l) # {}
=============================================================================
