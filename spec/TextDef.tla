------------------------------ MODULE TextDef -----------------------------
(* Definitions of the string operators that module Text evaluates with Java. *)
EXTENDS Integers, Sequences, TLC
Alphabet == " 0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"   \* in code-point order
LOCAL CharPos(c) == CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = c
(* lexicographic order by code points *)
StrLe(a, b) ==
    LET RECURSIVE le(_)
        le(i) == IF i > Len(a) THEN TRUE ELSE IF i > Len(b) THEN FALSE
                 ELSE LET x == CharPos(SubSeq(a, i, i))  y == CharPos(SubSeq(b, i, i))
                      IN  IF x < y THEN TRUE ELSE IF x > y THEN FALSE ELSE le(i + 1)
    IN  le(1)
(* does b occur in a *)
Has(a, b) == \E i \in 0..(Len(a) - Len(b)) : SubSeq(a, i + 1, i + Len(b)) = b
(* the pieces of s between occurrences of the one-character string c *)
Split(s, c) ==
    LET RECURSIVE f(_, _)
        f(i, j) == IF j > Len(s) THEN <<SubSeq(s, i, Len(s))>>
                   ELSE IF SubSeq(s, j, j) = c THEN <<SubSeq(s, i, j - 1)>> \o f(j + 1, j + 1) ELSE f(i, j + 1)
    IN  f(1, 1)
=============================================================================
