----------------------------- MODULE Rationals -----------------------------
(***************************************************************************)
(* Exact rational arithmetic.  A rational is an abstract value, written as *)
(* the string "n/d" in lowest terms with d > 0 ("n/1" for integers), so    *)
(* that TLA+ equality is numerical equality.                               *)
(*                                                                         *)
(* The definitions below are the meaning.  TLC's built-in integers have 32 *)
(* bits only, hence TLC evaluates these operators with the Java class      *)
(* java/Rationals.java (BigInteger); module RationalsTest compares the     *)
(* Java class with the definitions of RatDef on a grid.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL D == INSTANCE RatDef

R(n)       == D!Str(<<n, 1>>)                      \* integer -> rational
RFrac(n, d)== D!Str(D!Norm(n, d))                  \* n/d, d # 0
RAdd(a, b) == D!Str(D!Add(D!Parse(a), D!Parse(b)))
RSub(a, b) == D!Str(D!Sub(D!Parse(a), D!Parse(b)))
RMul(a, b) == D!Str(D!Mul(D!Parse(a), D!Parse(b)))
RDiv(a, b) == D!Str(D!Div(D!Parse(a), D!Parse(b)))
RLt(a, b)  == D!Lt(D!Parse(a), D!Parse(b))
RLe(a, b)  == ~ RLt(b, a)
RFloor(a)  == D!Floor(D!Parse(a))
RIsInt(a)  == D!Parse(a)[2] = 1
RSum(s)    == LET RECURSIVE f(_)
                  f(i) == IF i = 0 THEN R(0) ELSE RAdd(f(i-1), s[i])
              IN  f(Len(s))
RMinS(S)   == CHOOSE x \in S : \A y \in S : RLe(x, y)
RMaxS(S)   == CHOOSE x \in S : \A y \in S : RLe(y, x)
(* canonical string of a decimal/fraction literal such as "1", "-3/6", "1e-3", "0.25" *)
RNorm(s)   == D!Str(D!Parse(s))
=============================================================================
