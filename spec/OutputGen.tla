----------------------------- MODULE OutputGen -----------------------------
(* Generates histories of messages and verbosity changes (TLC simulation).   *)
EXTENDS OutputMachine, Json
CONSTANT Depth
VARIABLES s, h
Pick(S) == RandomElement(S)
Chance(k) == Pick(1..100) <= k
Vocabulary == {"a", "of", "committee", "1/3", "12345", "Phragmen-Enestroem", "{a, b}", "voters:", "well-known--dash", "-", "--", "x-",
          "averyveryveryveryveryveryveryveryveryveryveryveryverylongwordthatdoesnotfitintooneline", "candidates", "elected,", "budget", "(tied)", "score=17/12"}
Seps == {" ", " ", " ", " ", " ", " ", " ", " ", " ", "  ", "~", "~~", "~ ", " ~"}
RECURSIVE TextOf(_)
TextOf(n) == IF n = 0 THEN "" ELSE CHOOSE q \in {w \o p \o TextOf(n - 1) : w \in {Pick(Vocabulary)}, p \in {IF n = 1 THEN Pick({"", "", "", " ", "~"}) ELSE Pick(Seps)}} : TRUE
Base == [op |-> "", verb |-> 0, level |-> "info", text |-> "", wrap |-> TRUE, indent |-> "", kind |-> "", no |-> 0]
Names == {"critical", "error", "warning", "info", "details", "debug", "debug2"}
OpOf(r) ==
    CASE r <= 18 -> [Base EXCEPT !.op = "verbosity", !.verb = Pick({50, 40, 30, 20, 15, 10, 5, 0, 12, 17, 25, 51, 100})]
      [] r <= 22 -> [Base EXCEPT !.op = "default"]
      [] r <= 32 -> [Base EXCEPT !.op = Pick({"attach", "attach", "detach"})]
      [] r <= 40 -> [Base EXCEPT !.op = "analysis", !.no = Pick(0..40), !.kind = Pick({"ok", "ok", "invalid", "error", "nested"})]
      [] r <= 50 -> [Base EXCEPT !.op = "compute", !.no = Pick(0..200)]
      [] r <= 58 -> [Base EXCEPT !.op = "check", !.no = Pick(0..200)]
      [] OTHER -> [Base EXCEPT !.op = "message", !.level = Pick(Names), !.text = TextOf(Pick({0, 1, 2, 3, 5, 8, 12, 20, 40})), !.wrap = Chance(80),
                               !.indent = IF Chance(50) THEN "" ELSE Pick({"  ", "    ", " "})]
Init == s = OInit /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E r \in {Pick(1..100)} : \E op \in {OpOf(r)} : s' = OAfter(s, op) /\ h' = Append(h, op)
Emit == Len(h) = Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
