------------------------------ MODULE Text ------------------------------
(* String operators.  TLC evaluates StrLe, Split and Has with java/Text.java; *)
(* module RationalsTest compares it with these definitions.                      *)
EXTENDS Integers, Sequences, TLC, Rationals
LOCAL D == INSTANCE TextDef
StrLe(a, b) == D!StrLe(a, b)     \* lexicographic order by code points
Has(a, b)   == D!Has(a, b)       \* b occurs in a
Split(s, c) == D!Split(s, c)     \* the pieces of s between occurrences of the one-character string c
Join(s, sep) ==
    LET RECURSIVE f(_)
        f(i) == IF i > Len(s) THEN "" ELSE IF i = Len(s) THEN s[i] ELSE s[i] \o sep \o f(i + 1)
    IN  f(1)
SortStr(s) == SortSeq(s, LAMBDA a, b : StrLe(a, b) /\ a # b)
(* how the library writes numbers: 3 for 3/1, 3/2 otherwise *)
RStr(q) == IF RIsInt(q) THEN SubSeq(q, 1, Len(q) - 2) ELSE q
=============================================================================
