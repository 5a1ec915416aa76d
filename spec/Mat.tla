-------------------------------- MODULE Mat ---------------------------------
(* Exact matrix algebra over the rationals.  A matrix is a record                     *)
(*   [r |-> rows, c |-> columns, m |-> sequence of rows (integers), d |-> denominator] *)
(* and denotes m / d.  Zero-sized matrices do not occur.                               *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE GCD(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE GcdRow(_, _)
GcdRow(s, g) == IF s = <<>> THEN g ELSE GcdRow(Tail(s), GCD(Abs(Head(s)), g))
RECURSIVE GcdAll(_, _)
GcdAll(m, g) == IF m = <<>> \/ g = 1 THEN g ELSE GcdAll(Tail(m), GcdRow(Head(m), g))

Norm(a) == LET sg == IF a.d < 0 THEN -1 ELSE 1
               g  == GcdAll(a.m, Abs(a.d))
           IN IF g = 1 /\ sg = 1 THEN a
              ELSE [a EXCEPT !.m = [i \in 1..a.r |-> [j \in 1..a.c |-> (sg * a.m[i][j]) \div g]],
                             !.d = (sg * a.d) \div g]

Mk(r, c, F(_, _), d) == [r |-> r, c |-> c, d |-> d,
                         m |-> [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]]
FromRows(m) == [r |-> Len(m), c |-> Len(m[1]), m |-> m, d |-> 1]
Ident(n) == LET F(i, j) == IF i = j THEN 1 ELSE 0 IN Mk(n, n, F, 1)
ZeroM(r, c) == LET F(i, j) == 0 IN Mk(r, c, F, 1)
DiagM(v, d) == LET F(i, j) == IF i = j THEN v[i] ELSE 0 IN Mk(Len(v), Len(v), F, d)

MAdd(a, b) == LET g == GCD(a.d, b.d)
                  F(i, j) == a.m[i][j] * (b.d \div g) + b.m[i][j] * (a.d \div g)
              IN Norm(Mk(a.r, a.c, F, a.d * (b.d \div g)))
MScale(n, d, a) == LET F(i, j) == n * a.m[i][j] IN Norm(Mk(a.r, a.c, F, d * a.d))
MNeg(a) == MScale(-1, 1, a)
MSub(a, b) == MAdd(a, MNeg(b))
MMul(a, b) == LET F(i, j) == SumSeq([k \in 1..a.c |-> a.m[i][k] * b.m[k][j]])
              IN Norm(Mk(a.r, b.c, F, a.d * b.d))
MT(a) == LET F(i, j) == a.m[j][i] IN Mk(a.c, a.r, F, a.d)
MKron(a, b) == LET F(i, j) == a.m[((i - 1) \div b.r) + 1][((j - 1) \div b.c) + 1]
                               * b.m[((i - 1) % b.r) + 1][((j - 1) % b.c) + 1]
               IN Norm(Mk(a.r * b.r, a.c * b.c, F, a.d * b.d))
MBlk(a, b) == LET F(i, j) == IF i <= a.r /\ j <= a.c THEN a.m[i][j] * b.d
                             ELSE IF i > a.r /\ j > a.c THEN b.m[i - a.r][j - a.c] * a.d ELSE 0
              IN Norm(Mk(a.r + b.r, a.c + b.c, F, a.d * b.d))
MSelect(idx, n) == LET F(i, j) == IF idx[i] = j - 1 THEN 1 ELSE 0 IN Mk(Len(idx), n, F, 1)
MEmbed(take, put, r, c) ==
    LET F(i, j) == IF \E k \in 1..Len(take) : put[k] = i - 1 /\ take[k] = j - 1 THEN 1 ELSE 0
    IN Mk(r, c, F, 1)
MSymmetrizer(n) ==   \* vec(X) |-> vec((X + X^T) / 2), row-major vec
    LET F(i, j) == LET a == (i - 1) \div n  b == (i - 1) % n  p == (j - 1) \div n  q == (j - 1) % n
                   IN (IF a = p /\ b = q THEN 1 ELSE 0) + (IF a = q /\ b = p THEN 1 ELSE 0)
    IN Mk(n * n, n * n, F, 2)

(* determinant and adjugate of the integer part by cofactor expansion *)
Minor(m, i, j) == [a \in 1..(Len(m) - 1) |-> [b \in 1..(Len(m) - 1) |->
                     m[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]]
RECURSIVE DetI(_)
DetI(m) == IF Len(m) = 1 THEN m[1][1]
           ELSE IF Len(m) = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
           ELSE SumSeq([j \in 1..Len(m) |->
                    IF m[1][j] = 0 THEN 0
                    ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * DetI(Minor(m, 1, j))])
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
IsSquare(a) == a.r = a.c
Det(a) == LET n == DetI(a.m)  d == Pow(a.d, a.r)  g == GCD(Abs(n), d)
          IN [n |-> n \div g, d |-> d \div g]
MInv(a) ==
    IF a.r = 1 THEN Norm([a EXCEPT !.m = <<<<a.d>>>>, !.d = a.m[1][1]])
    ELSE LET dt == DetI(a.m)
             F(i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * DetI(Minor(a.m, j, i)) * a.d
         IN Norm(Mk(a.r, a.r, F, dt))
Trace(a) == SumSeq([i \in 1..a.r |-> a.m[i][i]])
IsSym(a) == IsSquare(a) /\ \A i \in 1..a.r, j \in 1..a.c : a.m[i][j] = a.m[j][i]
IsLower(a) == \A i \in 1..a.r, j \in 1..a.c : j > i => a.m[i][j] = 0
IsUpper(a) == \A i \in 1..a.r, j \in 1..a.c : j < i => a.m[i][j] = 0
Lead(a, k) == [i \in 1..k |-> [j \in 1..k |-> a.m[i][j]]]
IsPD(a) == IsSym(a) /\ \A k \in 1..a.r : DetI(Lead(a, k)) > 0   \* Sylvester (denominators are positive)
SubRC(a, R, C) == LET SortedR == CHOOSE f \in [1..Cardinality(R) -> R] :
                                    \A x, y \in 1..Cardinality(R) : x < y => f[x] < f[y]
                      SortedC == CHOOSE f \in [1..Cardinality(C) -> C] :
                                    \A x, y \in 1..Cardinality(C) : x < y => f[x] < f[y]
                  IN [i \in 1..Cardinality(R) |-> [j \in 1..Cardinality(C) |-> a.m[SortedR[i]][SortedC[j]]]]
Rank(a) == LET mn == IF a.r < a.c THEN a.r ELSE a.c
               has(k) == \E R \in SUBSET (1..a.r), C \in SUBSET (1..a.c) :
                             /\ Cardinality(R) = k /\ Cardinality(C) = k
                             /\ DetI(SubRC(a, R, C)) # 0
           IN CHOOSE k \in 0..mn : (k = 0 \/ has(k)) /\ \A l \in (k + 1)..mn : ~has(l)
MaxAbs(a) == LET S == {Abs(a.m[i][j]) : i \in 1..a.r, j \in 1..a.c}
             IN CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
