------------------------------ MODULE RatDef ------------------------------
(* Rationals as normalised pairs of unbounded integers: the definition that *)
(* module Rationals stands for.                                              *)
EXTENDS Integers, Sequences, TLC
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET g == Gcd(Abs(n), Abs(d))
                  s == IF d < 0 THEN -1 ELSE 1
              IN  <<s * (IF n < 0 THEN -(Abs(n) \div g) ELSE n \div g), Abs(d) \div g>>
Add(a, b) == Norm(a[1]*b[2] + b[1]*a[2], a[2]*b[2])
Sub(a, b) == Norm(a[1]*b[2] - b[1]*a[2], a[2]*b[2])
Mul(a, b) == Norm(a[1]*b[1], a[2]*b[2])
Div(a, b) == Norm(a[1]*b[2], a[2]*b[1])
Lt(a, b)  == a[1]*b[2] < b[1]*a[2]
Floor(a)  == a[1] \div a[2]
Str(a)    == ToString(a[1]) \o "/" \o ToString(a[2])
Parse(s)  == CHOOSE p \in Int \X (Int \ {0}) : p[2] > 0 /\ Gcd(Abs(p[1]), p[2]) = 1 /\ Str(p) = s
=============================================================================
