--------------------------- MODULE OutputMachine ---------------------------
(***************************************************************************)
(* Messages.  State: the verbosity in force and whether a logger is         *)
(* attached.  A message of some level is printed iff its level is at least  *)
(* the verbosity; an attached logger receives every message.  Line breaks   *)
(* are written ~ in the records.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Text

LevelOf(name) == CASE name = "critical" -> 50 [] name = "error" -> 40 [] name = "warning" -> 30 [] name = "info" -> 20
                   [] name = "details" -> 15 [] name = "debug" -> 10 [] name = "debug2" -> 5
LogLevel(l) == IF l \in {15, 5} THEN 10 ELSE l            \* levels unknown to the logging module
LineWidth == 70

Words(line) == SelectSeq(Split(line, " "), LAMBDA t : t # "")
Lines(msg) == Split(msg, "~")
Trim(line) == Join(Words(line), " ")

(* the printed lines p are the lines of the message, long ones broken between words or behind hyphens *)
Starts(a, b) == Len(a) >= Len(b) /\ SubSeq(a, 1, Len(b)) = b
RECURSIVE Match(_, _, _, _, _)
(* words ms of one message line from position j (part "acc" of word j already seen) against the words ps *)
Match(ms, j, acc, ps, x) ==
    IF x > Len(ps) THEN <<j, acc>>
    ELSE LET t == acc \o ps[x] IN
         IF j > Len(ms) THEN <<0, "">>
         ELSE IF t = ms[j] THEN Match(ms, j + 1, "", ps, x + 1)
         ELSE IF Starts(ms[j], t) /\ SubSeq(t, Len(t), Len(t)) = "-" THEN Match(ms, j, t, ps, x + 1)
         ELSE <<0, "">>
RECURSIVE Fits(_, _, _, _, _, _)
(* message lines from i on against printed lines from x on; <<j, acc>>: progress inside message line i *)
Fits(ml, i, j, acc, pl, x) ==
    IF i > Len(ml) THEN x > Len(pl)
    ELSE LET ms == Words(ml[i]) IN
         IF x > Len(pl) THEN FALSE
         ELSE LET r == Match(ms, j, acc, Words(pl[x]), 1) IN
              IF r[1] = 0 THEN FALSE
              ELSE IF r[1] > Len(ms) /\ r[2] = "" THEN Fits(ml, i + 1, 1, "", pl, x + 1)
              ELSE Fits(ml, i, r[1], r[2], pl, x + 1)
Wrapped(msg, indent, p) ==
    LET ml == Lines(msg)  pl == Lines(p) IN
       (IF ~ Fits(ml, 1, 1, "", pl, 1) THEN {"words or line breaks are lost"} ELSE {})
  \cup (IF \E x \in 1..Len(pl) : Words(pl[x]) # <<>> /\ ~ Starts(pl[x], indent) THEN {"not indented"} ELSE {})
  \cup (IF \E x \in 1..Len(pl) : Len(pl[x]) > LineWidth /\ Len(Words(pl[x])) > 1 THEN {"line too long"} ELSE {})
  \cup (IF (\A i \in 1..Len(ml) : Len(indent \o ml[i]) <= LineWidth) /\ Len(pl) # Len(ml) THEN {"a short line is broken"} ELSE {})
SameWords(a, b) == Fits(Lines(a), 1, 1, "", Lines(b), 1)

OInit == [verb |-> 30, logger |-> FALSE]
OAfter(s, op) == CASE op.op = "verbosity" -> [s EXCEPT !.verb = op.verb]
                   [] op.op = "default" -> [s EXCEPT !.verb = 30]
                   [] op.op = "attach" -> [s EXCEPT !.logger = TRUE]
                   [] op.op = "detach" -> [s EXCEPT !.logger = FALSE]
                   [] OTHER -> s

Pad50(t) == t \o SubSeq("                                                  ", 1, 50 - Len(t))
Titles == << <<"pareto", "Pareto optimality">>, <<"jr", "Justified representation (JR)">>, <<"pjr", "Proportional justified representation (PJR)">>,
             <<"ejr", "Extended justified representation (EJR)">>, <<"ejr+", "EJR+">>, <<"fjr", "Full justified representation (FJR)">>,
             <<"priceability", "Priceability">>, <<"stable-priceability", "Stable Priceability">>, <<"core", "The core">> >>
Title(p) == Titles[CHOOSE j \in 1..Len(Titles) : Titles[j][1] = p][2]

AppendAll(q) == Join(q, "~")
OutputStepFails(s, c) ==
    LET op == c.do
        t == OAfter(s, op)
        level == LevelOf(op.level)
        shown == level >= s.verb
    IN (IF c.obs.verb # t.verb THEN {op.op \o ": verbosity is " \o ToString(c.obs.verb) \o " instead of " \o ToString(t.verb)} ELSE {})
       \cup CASE op.op = "message" ->
                   (IF c.cls # "" THEN {"message: raised " \o c.cls} ELSE {})
                   \cup (IF ~ shown /\ c.out # "" THEN {"message: printed although below the verbosity"} ELSE {})
                   \cup (IF shown /\ c.out = "" THEN {"message: not printed"} ELSE {})
                   \cup (IF shown /\ c.out # "" THEN (LET p == SubSeq(c.out, 1, Len(c.out) - 1) IN
                                       IF op.wrap THEN {"message: " \o u : u \in Wrapped(op.text, op.indent, p)}
                                       ELSE IF p # op.text THEN {"message: printed text differs"} ELSE {}) ELSE {})
                   \cup (IF ~ s.logger THEN (IF c.log # <<>> THEN {"message: detached logger received something"} ELSE {})
                         ELSE IF Len(c.log) # 1 THEN {"message: logged " \o ToString(Len(c.log)) \o " times"}
                         ELSE (IF c.log[1].level # LogLevel(level) THEN {"message: logged with level " \o ToString(c.log[1].level)} ELSE {})
                              \cup (IF ~ SameWords(op.text, c.log[1].text) THEN {"message: logged text differs"} ELSE {}))
            [] op.op = "analysis" ->
                   (IF c.expectfail # (c.cls # "") THEN {"analysis: " \o (IF c.cls = "" THEN "failure swallowed" ELSE "raised " \o c.cls)} ELSE {})
                   \cup (LET want == IF c.cls = "" /\ s.verb <= 20 THEN AppendAll([j \in 1..Len(c.values) |-> Pad50(Title(c.values[j][1])) \o " : " \o c.values[j][2]]) \o "~" ELSE ""
                         IN  IF s.verb <= 50 /\ c.out # want THEN {"analysis: printed text differs"} ELSE {})
            [] op.op \in {"compute", "check"} ->
                   LET sel == SelectSeq(c.log, LAMBDA l : l.level >= s.verb)
                   IN  (IF s.logger /\ (s.verb > 15 \/ s.verb <= 5) /\ Join([j \in 1..Len(sel) |-> sel[j].text \o "~"], "") # c.out
                        THEN {op.op \o ": printed text is not what was logged at this verbosity"} ELSE {})
                       \cup (IF s.verb > 30 /\ c.out # "" THEN {op.op \o ": printed although below the verbosity"} ELSE {})
            [] OTHER -> IF c.out # "" \/ c.log # <<>> THEN {op.op \o ": printed or logged something"} ELSE {}
=============================================================================
