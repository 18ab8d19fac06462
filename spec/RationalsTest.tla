--------------------------- MODULE RationalsTest ---------------------------
(* Compares the Java evaluation of Rationals with the definitions of RatDef. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rationals, Text
D == INSTANCE RatDef
CONSTANT N
Grid == {D!Norm(n, d) : n \in -N..N, d \in 1..N}
S(p) == D!Str(p)
ASSUME \A a \in Grid : R(a[1]) = S(<<a[1], 1>>) /\ RFrac(a[1], a[2]) = S(a) /\ RFrac(-2*a[1], -2*a[2]) = S(a)
                       /\ RFloor(S(a)) = D!Floor(a) /\ (RIsInt(S(a)) <=> a[2] = 1) /\ RNorm(S(a)) = S(a)
ASSUME \A a, b \in Grid : /\ RAdd(S(a), S(b)) = S(D!Add(a, b))
                          /\ RSub(S(a), S(b)) = S(D!Sub(a, b))
                          /\ RMul(S(a), S(b)) = S(D!Mul(a, b))
                          /\ b[1] # 0 => RDiv(S(a), S(b)) = S(D!Div(a, b))
                          /\ RLt(S(a), S(b)) = D!Lt(a, b)
                          /\ RLe(S(a), S(b)) = (~ D!Lt(b, a))
                          /\ RSum(<<S(a), S(b), S(a)>>) = S(D!Add(a, D!Add(a, b)))
                          /\ RMinS({S(a), S(b)}) = (IF D!Lt(a, b) THEN S(a) ELSE S(b))
                          /\ RMaxS({S(a), S(b)}) = (IF D!Lt(a, b) THEN S(b) ELSE S(a))
(* beyond 32 bits: the field laws on large values *)
Big == {"123456789012345678901234567890/97", "-999999999999999999/1000000007", "1/340282366920938463463374607431768211456"}
ASSUME \A a, b, c \in Big : /\ RSub(RAdd(a, b), b) = a
                            /\ RDiv(RMul(a, b), b) = a
                            /\ RMul(a, RAdd(b, c)) = RAdd(RMul(a, b), RMul(a, c))
                            /\ RLt(a, b) <=> RLt("0/1", RSub(b, a))
(* strings *)
T == INSTANCE TextDef
Strs == {"", "a", "b", "ab", "a b", "B", "10", "2", "1", "aa", "b a b", " ", "  a ", "Zz0"}
ASSUME \A a, b \in Strs : /\ StrLe(a, b) = T!StrLe(a, b) /\ Has(a, b) = T!Has(a, b)
                          /\ Split(a, " ") = T!Split(a, " ") /\ Split(a, "b") = T!Split(a, "b")
ASSUME Join(<<"a", "b", "">>, "--") = "a--b--" /\ SortStr(<<"b", "10", "2", "a b">>) = <<"10", "2", "a b", "b">>
ASSUME RStr("3/1") = "3" /\ RStr("-3/2") = "-3/2" /\ RStr("12/1") = "12"
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
