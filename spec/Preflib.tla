------------------------------ MODULE Preflib ------------------------------
(* Reading and writing Preflib files.                                        *)
(* A line is [n |-> count, cl |-> sequence of sequences of alternatives      *)
(* 1..m] : the ranks of an order, or the categories of a categorical line.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Text

PSet(q) == {q[x] : x \in 1..Len(q)}
Upto(cl, r) == UNION {PSet(cl[x]) : x \in 1..(IF r < Len(cl) THEN r ELSE Len(cl))}
(* approval set of a line: the first r ranks joined, or as few ranks as give at least z candidates; *)
(* alternatives that are not ranked are tied behind the ranked ones; an empty line approves nobody *)
PLApproval(line, mode, x, m) ==
    IF mode = "top" THEN Upto(line.cl, x)
    ELSE LET all == Upto(line.cl, Len(line.cl))
             enough == {r \in 0..Len(line.cl) : Cardinality(Upto(line.cl, r)) >= x}
         IN  IF all = {} THEN {}
             ELSE IF enough = {} THEN 1..m
             ELSE Upto(line.cl, CHOOSE r \in enough : \A t \in enough : r <= t)
RECURSIVE SumOver(_, _)
SumOver(q, j) == IF j = 0 THEN "0/1" ELSE RAdd(SumOver(q, j - 1), q[j])
(* total weight / number of voters with the ballot S among the voters V *)
PLWeight(V, S) == LET q == SelectSeq(V, LAMBDA v : PSet(v.a) = S) IN SumOver([x \in 1..Len(q) |-> q[x].w], Len(q))
CountV(V, S) == Cardinality({x \in 1..Len(V) : PSet(V[x].a) = S})

ReadFails(lines, m, names, mode, x, uw, r) ==
    LET ballot(l) == {c - 1 : c \in PLApproval(l, mode, x, m)}
        B == {ballot(lines[j]) : j \in 1..Len(lines)}
        count(S) == LET q == SelectSeq(lines, LAMBDA l : ballot(l) = S) IN SumOver([j \in 1..Len(q) |-> RFrac(q[j].n, 1)], Len(q))
        linesOf(S) == Cardinality({j \in 1..Len(lines) : ballot(lines[j]) = S})
    IN  (IF r.m # m THEN {"wrong number of candidates"} ELSE {})
        \cup (IF r.names # names THEN {"wrong candidate names"} ELSE {})
        \cup (IF {PSet(r.V[j].a) : j \in 1..Len(r.V)} # {S \in B : RLt("0/1", count(S))} THEN {"wrong ballots"} ELSE {})
        \cup (IF \E S \in B : PLWeight(r.V, S) # count(S) THEN {"wrong multiplicity or weight"} ELSE {})
        \cup (IF ~ uw /\ \E j \in 1..Len(r.V) : r.V[j].w # "1/1" THEN {"weights although voters were asked for"} ELSE {})
        \cup (IF uw /\ \E S \in B : CountV(r.V, S) # linesOf(S) THEN {"not one voter per line"} ELSE {})

(* modes: "top" with x ranks, "size" with at least x candidates, "default", "both", and refused values *)
ModeOK(mode, x) == mode = "default" \/ (mode \in {"top", "size"} /\ x > 0)
Ext(name) == {e \in {".soi", ".toi", ".soc", ".toc", ".cat"} : Len(name) >= 4 /\ SubSeq(name, Len(name) - 3, Len(name)) = e}

PreflibCallFails(c) ==
    LET raised == {c.fn \o ": raised " \o c.cls}
        Tag(S) == {c.fn \o ": " \o t : t \in S}
        refused(S) == IF c.cls = "" THEN {c.fn \o ": accepted what has to be refused"} ELSE IF c.cls \notin S THEN {c.fn \o ": refused with " \o c.cls} ELSE {}
        md(mode) == IF mode = "default" THEN "top" ELSE mode
        mx(mode, x) == IF mode = "default" THEN 1 ELSE x
    IN
    CASE c.fn = "read" -> IF ~ ModeOK(c.mode, c.x) THEN refused({"ValueError"})
                          ELSE IF c.cls # "" THEN raised
                          ELSE Tag(ReadFails(c.lines, c.m, c.names, md(c.mode), mx(c.mode, c.x), c.uw, c.r))
      [] c.fn = "unreadable" -> refused({"MalformattedFileException", "ValueError"})
      [] c.fn = "writeread" ->
              IF c.cls # "" THEN raised
              ELSE LET B == {PSet(c.V[j].a) : j \in 1..Len(c.V)} IN
                   Tag((IF c.r.m # c.m THEN {"wrong number of candidates"} ELSE {})
                       \cup (IF c.r.names # c.names THEN {"wrong candidate names"} ELSE {})
                       \cup (IF {PSet(c.r.V[j].a) : j \in 1..Len(c.r.V)} # B THEN {"wrong ballots"} ELSE {})
                       \cup (IF \E S \in B : PLWeight(c.r.V, S) # PLWeight(c.V, S) THEN {"wrong multiplicity or weight"} ELSE {})
                       \cup (IF ~ c.uw /\ \E j \in 1..Len(c.r.V) : c.r.V[j].w # "1/1" THEN {"weights although voters were asked for"} ELSE {}))
      [] c.fn = "dir" ->
              LET want == {j \in 1..Len(c.files) : Ext(c.files[j].name) # {}} IN
              IF Len(c.files) = 0 THEN refused({"FileNotFoundError"})
              ELSE IF c.cls # "" THEN raised
              ELSE IF Len(c.r) # Cardinality(want) \/ {c.r[j].name : j \in 1..Len(c.r)} # {c.files[j].name : j \in want} THEN {"dir: wrong files"}
              ELSE UNION {UNION {IF c.files[j].name = c.r[t].name
                                 THEN Tag(ReadFails(c.files[j].lines, c.files[j].m, c.files[j].names, md(c.mode), mx(c.mode, c.x), FALSE, c.r[t].r)) ELSE {}
                                 : t \in 1..Len(c.r)} : j \in want}
      [] c.fn = "filenames" ->
              LET fits(n) == c.exts = <<>> \/ \E e \in PSet(c.exts) : Len(n) >= Len(e) /\ SubSeq(n, Len(n) - Len(e) + 1, Len(n)) = e
                  want == {n \in PSet(c.present) : fits(n)} IN
              IF c.present = <<>> THEN refused({"FileNotFoundError"})
              ELSE IF c.cls # "" THEN raised
              ELSE (IF PSet(c.r) # want \/ Len(c.r) # Cardinality(want) THEN {"filenames: wrong files"} ELSE {})
                   \cup (IF \E j \in 1..(Len(c.r) - 1) : ~ StrLe(c.r[j], c.r[j + 1]) THEN {"filenames: not sorted"} ELSE {})
PreflibFails(rec) == UNION {{<<j, t>> : t \in PreflibCallFails(rec.calls[j])} : j \in 1..Len(rec.calls)}
=============================================================================
