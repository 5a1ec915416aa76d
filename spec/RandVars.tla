------------------------------ MODULE RandVars ------------------------------
(* The calculus of Gaussian and constant random variables.                              *)
(* A random variable is its shape, its mean and the covariance of its row-major vector, *)
(* all exact.  Every operation offered on random variables is an affine map x -> Mx + b *)
(* of that vector (or the sum of two independent ones); an operation whose shapes do    *)
(* not fit is refused.                                                                  *)
EXTENDS Mat, TLC, Json
CONSTANTS MaxOps, Wide

Prod(s) == IF s = <<>> THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] * s[2]
Col(v, d) == [r |-> Len(v), c |-> 1, d |-> d, m |-> [i \in 1..Len(v) |-> <<v[i]>>]]

P2 == <<<<2, 1>>, <<1, 3>>>>
P3 == <<<<4, 1, 0>>, <<1, 3, -1>>, <<0, -1, 2>>>>
P4 == <<<<4, 1, 0, 1>>, <<1, 3, 1, 0>>, <<0, 1, 2, 0>>, <<1, 0, 0, 5>>>>
KA == <<<<2, 1>>, <<1, 1>>>>
KB == <<<<1, 0, 0>>, <<0, 2, 1>>, <<0, 1, 3>>>>

RV(shape, v, d, cov, rep, x) == [shape |-> shape, v |-> v, d |-> d, cov |-> cov, rep |-> rep, x |-> x]
(* rep: how the covariance is given to the constructor; x: the factors *)
Leaves0 == {
   RV(<<>>, <<2>>, 1, FromRows(<<<<9>>>>), "dense", <<>>),
   RV(<<2>>, <<1, -3>>, 1, FromRows(P2), "dense", <<>>),
   RV(<<2>>, <<1, 3>>, 2, FromRows(P2), "linop", <<>>),
   RV(<<2, 2>>, <<1, 0, 2, -1>>, 1, FromRows(P4), "dense", <<>>),
   RV(<<2, 3>>, <<1, 0, 2, -1, 3, 5>>, 1, MKron(FromRows(KA), FromRows(KB)), "kron", <<KA, KB>>),
   RV(<<1, 2>>, <<4, 1>>, 1, FromRows(P2), "dense", <<>>),
   RV(<<2>>, <<0, 7>>, 1, ZeroM(2, 2), "const", <<>>)}
Leaves1 == Leaves0 \cup {
   RV(<<1>>, <<5>>, 1, FromRows(<<<<4>>>>), "dense", <<>>),
   RV(<<3>>, <<0, 1, 2>>, 1, FromRows(P3), "dense", <<>>),
   RV(<<3>>, <<0, 1, 2>>, 1, DiagM(<<3, 3, 3>>, 2), "scaling", <<>>),
   RV(<<2, 1>>, <<4, 1>>, 1, FromRows(P2), "linop", <<>>),
   RV(<<2, 2>>, <<1, 0, 2, -1>>, 1, MKron(FromRows(KA), FromRows(P2)), "kron", <<KA, P2>>),
   RV(<<2, 2>>, <<0, 0, 0, 1>>, 1, FromRows(P4), "linop", <<>>),
   RV(<<4>>, <<0, 0, 0, 1>>, 1, FromRows(P4), "dense", <<>>),
   RV(<<>>, <<-1>>, 2, ZeroM(1, 1), "const", <<>>),
   RV(<<2, 3>>, <<1, 2, 3, 4, 5, 6>>, 1, ZeroM(6, 6), "const", <<>>)}
Leaves == IF Wide THEN Leaves1 ELSE Leaves0

VARIABLES cur,   \* [shape, mean (column), cov] of the random variable in hand
          hist,  \* operations applied, starting with the constructor
          done, refused
vars == <<cur, hist, done, refused>>
NoOp == <<>>
Init == cur = NoOp /\ hist = <<>> /\ done = FALSE /\ refused = FALSE

Ok(m) == MaxAbs(m) < 3000 /\ m.d < 500 /\ m.r <= 8
Step(shape, mean, cov, h) ==
    /\ Ok(mean) /\ Ok(cov)
    /\ cur' = [shape |-> shape, mean |-> mean, cov |-> cov]
    /\ hist' = Append(hist, h) /\ UNCHANGED <<done, refused>>
Affine(M, b, shape, h) ==
    Step(shape, MAdd(MMul(M, cur.mean), b), MMul(M, MMul(cur.cov, MT(M))), h)
N == Prod(cur.shape)
Zero0(n) == ZeroM(n, 1)
Rank_(s) == Len(s)

Make == /\ cur = NoOp
        /\ \E l \in Leaves : Step(l.shape, Norm(Col(l.v, l.d)), l.cov, [op |-> "make", rv |-> l])

(* constants used as the other operand *)
VecOf(n) == [i \in 1..n |-> (i * i) - 2]
MatAt(r, c) == [i \in 1..r |-> [j \in 1..c |-> (((i * 2) + (j * j)) % 4) - 1]]
Scalars == {<<0, 1>>, <<-2, 1>>, <<1, 2>>, <<3, 1>>}

AddConst == \E o \in {"addc", "cadd", "subc"} :
    LET b == Col(VecOf(N), 1)
    IN Affine(Ident(N), IF o = "subc" THEN MNeg(b) ELSE b, cur.shape, [op |-> o, c |-> VecOf(N)])
ConstSub == Affine(MNeg(Ident(N)), Col(VecOf(N), 1), cur.shape, [op |-> "csub", c |-> VecOf(N)])
AddScal == \E o \in {"adds", "ssub"} :
    Affine(IF o = "adds" THEN Ident(N) ELSE MNeg(Ident(N)), Col([i \in 1..N |-> 2], 1), cur.shape, [op |-> o, s |-> 2])
Negate == Affine(MNeg(Ident(N)), Zero0(N), cur.shape, [op |-> "neg"])
Scale == \E s \in Scalars, o \in {"muls", "smul"} :
    Affine(MScale(s[1], s[2], Ident(N)), Zero0(N), cur.shape, [op |-> o, s |-> s])
Divide == \E s \in {<<2, 1>>, <<-3, 1>>, <<1, 2>>} :
    Affine(MScale(s[2], s[1], Ident(N)), Zero0(N), cur.shape, [op |-> "divs", s |-> s])

(* matrix products with a constant on either side *)
LMul == /\ Rank_(cur.shape) >= 1
        /\ \E k \in {1, 2, 3} :
             LET n == cur.shape[1]  A == FromRows(MatAt(k, n))
                 p == IF Rank_(cur.shape) = 2 THEN cur.shape[2] ELSE 1
             IN Affine(MKron(A, Ident(p)), Zero0(k * p),
                       IF Rank_(cur.shape) = 2 THEN <<k, cur.shape[2]>> ELSE <<k>>, [op |-> "lmul", a |-> A.m])
LMulVec == /\ Rank_(cur.shape) = 2          \* vector @ matrix-valued
           /\ LET n == cur.shape[1]  A == FromRows(MatAt(1, n))  p == cur.shape[2]
              IN Affine(MKron(A, Ident(p)), Zero0(p), <<p>>, [op |-> "lmulv", a |-> A.m[1]])
RMul == /\ Rank_(cur.shape) >= 1
        /\ \E k \in {1, 2, 3} :
             LET n == cur.shape[Len(cur.shape)]  B == FromRows(MatAt(n, k))
                 p == IF Rank_(cur.shape) = 2 THEN cur.shape[1] ELSE 1
             IN Affine(MKron(Ident(p), MT(B)), Zero0(k * p),
                       IF Rank_(cur.shape) = 2 THEN <<p, k>> ELSE <<k>>, [op |-> "rmul", b |-> B.m])
RMulVec == /\ Rank_(cur.shape) = 2
           /\ LET n == cur.shape[2]  B == FromRows(MatAt(n, 1))  p == cur.shape[1]
              IN Affine(MKron(Ident(p), MT(B)), Zero0(p), <<p>>,
                        [op |-> "rmulv", b |-> [i \in 1..n |-> B.m[i][1]]])
Inner == /\ Rank_(cur.shape) = 1
         /\ \E o \in {"innerl", "innerr"} :
             LET n == cur.shape[1]  A == FromRows(MatAt(1, n))
             IN Affine(A, Zero0(1), <<>>, [op |-> o, a |-> A.m[1]])

(* rearrangements: selections of the row-major vector *)
Flat(i, j) == (i * cur.shape[2]) + j
Reshape == \E sh \in {<<>>, <<1>>, <<2>>, <<3>>, <<4>>, <<6>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>, <<1, 1>>, <<6, 1>>, <<1, 3>>} :
              /\ Prod(sh) = N /\ sh # cur.shape
              /\ Affine(Ident(N), Zero0(N), sh, [op |-> "reshape", shape |-> sh])
Permuted == IF Rank_(cur.shape) = 2
            THEN [k \in 1..N |-> LET i == (k - 1) \div cur.shape[1]  j == (k - 1) % cur.shape[1] IN Flat(j, i)]
            ELSE [k \in 1..N |-> k - 1]
Transpose == \E o \in {"T", "transpose"} :
              /\ Rank_(cur.shape) >= 1
              /\ Affine(MSelect(Permuted, N), Zero0(N),
                        IF Rank_(cur.shape) = 2 THEN <<cur.shape[2], cur.shape[1]>> ELSE cur.shape, [op |-> o])
Sel(idx, shape, key) == Affine(MSelect(idx, N), Zero0(Len(idx)), shape, [op |-> "index", key |-> key])
Rng(a, b) == [k \in 1..(b - a) |-> a + k - 1]
Rev(n) == [k \in 1..n |-> n - k]
Index1 == /\ Rank_(cur.shape) = 1
          /\ LET n == cur.shape[1]
             IN \/ Sel(<<n - 1>>, <<>>, <<<<"int", n - 1>>>>)
                \/ Sel(<<n - 1>>, <<>>, <<<<"int", -1>>>>)
                \/ Sel(<<0>>, <<1>>, <<<<"slice", 0, 1, 1>>>>)
                \/ Sel(Rng(0, n), <<n>>, <<<<"all">>>>)
                \/ Sel(Rev(n), <<n>>, <<<<"rev">>>>)
                \/ n >= 2 /\ Sel(<<1, 0>>, <<2>>, <<<<"array", <<1, 0>>>>>>)
                \/ n >= 3 /\ Sel(<<0, 2>>, <<2>>, <<<<"slice", 0, 3, 2>>>>)
                \/ n >= 3 /\ Sel(<<0, 2>>, <<2>>, <<<<"mask", <<1, 0, 1>> \o [k \in 1..(n - 3) |-> 0]>>>>)
RowIdx(i) == [j \in 1..cur.shape[2] |-> Flat(i, j - 1)]
ColIdx(j) == [i \in 1..cur.shape[1] |-> Flat(i - 1, j)]
Index2 == /\ Rank_(cur.shape) = 2
          /\ LET m == cur.shape[1]  n == cur.shape[2]
             IN \/ Sel(<<Flat(m - 1, n - 1)>>, <<>>, <<<<"int", m - 1>>, <<"int", n - 1>>>>)
                \/ Sel(<<Flat(m - 1, 0)>>, <<>>, <<<<"int", -1>>, <<"int", 0>>>>)
                \/ Sel(RowIdx(m - 1), <<n>>, <<<<"int", m - 1>>>>)
                \/ Sel(ColIdx(n - 1), <<m>>, <<<<"all">>, <<"int", n - 1>>>>)
                \/ Sel(ColIdx(0), <<m, 1>>, <<<<"all">>, <<"slice", 0, 1, 1>>>>)
                \/ Sel(RowIdx(m - 1), <<1, n>>, <<<<"slice", m - 1, m, 1>>>>)
                \/ (m >= 2 /\ n >= 2) /\ Sel(<<Flat(0, 1), Flat(1, 0)>>, <<2>>, <<<<"array", <<0, 1>>>>, <<"array", <<1, 0>>>>>>)
                \/ m >= 2 /\ Sel(RowIdx(1) \o RowIdx(0), <<2, n>>, <<<<"array", <<1, 0>>>>>>)
(* sums and differences of independent random variables *)
Combine == \E l \in Leaves, o \in {"addrv", "subrv", "rvadd", "rvsub"} :
             /\ l.shape = cur.shape
             /\ LET lm == Norm(Col(l.v, l.d))
                    mean == CASE o \in {"addrv", "rvadd"} -> MAdd(cur.mean, lm)
                              [] o = "subrv" -> MSub(cur.mean, lm)
                              [] o = "rvsub" -> MSub(lm, cur.mean)
                IN Step(cur.shape, mean, MAdd(cur.cov, l.cov), [op |-> o, rv |-> l])
(* asking for the Cholesky factor stores it, and is not observable otherwise *)
Chol == /\ cur.cov.r <= 4 /\ MaxAbs(cur.cov) < 60 /\ IsPD(cur.cov)
        /\ hist[Len(hist)].op # "chol"
        /\ hist' = Append(hist, [op |-> "chol"]) /\ UNCHANGED <<cur, done, refused>>
IsZeroCov == \A i \in 1..cur.cov.r, j \in 1..cur.cov.c : cur.cov.m[i][j] = 0
Refuse(h) == /\ hist' = Append(hist, h) /\ refused' = TRUE /\ UNCHANGED <<cur, done>>
Bad == \/ \E l \in Leaves, o \in {"addrv", "subrv"} :
             /\ l.shape # cur.shape /\ l.rep # "const" /\ Prod(l.shape) # 1 /\ N # 1
             /\ ~IsZeroCov /\ Refuse([op |-> o, rv |-> l])
       \/ /\ Rank_(cur.shape) >= 1
          /\ Refuse([op |-> "lmul", a |-> MatAt(2, cur.shape[1] + 1)])
       \/ /\ N > 1 /\ Refuse([op |-> "reshape", shape |-> <<N + 1>>])

Op == /\ cur # NoOp /\ ~refused /\ Len(hist) <= MaxOps
      /\ \/ AddConst \/ ConstSub \/ AddScal \/ Negate \/ Scale \/ Divide \/ LMul \/ LMulVec \/ RMul \/ RMulVec
         \/ Inner \/ Reshape \/ Transpose \/ Index1 \/ Index2 \/ Combine \/ Chol \/ Bad
Finish == /\ cur # NoOp /\ ~done /\ (Len(hist) = MaxOps + 1 \/ refused)
          /\ done' = TRUE /\ UNCHANGED <<cur, hist, refused>>
Next == ~done /\ (Make \/ Op \/ Finish)

(* ---- the calculus preserves what makes a covariance a covariance ---- *)
CovSymmetric == cur # NoOp => IsSym(cur.cov) /\ cur.cov.r = N /\ cur.mean.r = N
PSDMinors == cur # NoOp =>
    /\ \A i \in 1..N : cur.cov.m[i][i] >= 0
    /\ \A i, j \in 1..N : cur.cov.m[i][j] * cur.cov.m[i][j] <= cur.cov.m[i][i] * cur.cov.m[j][j]
EmitInv == done => PrintT("@@" \o ToJson([hist |-> hist, refused |-> refused, shape |-> cur.shape,
                                          mean |-> [i \in 1..N |-> cur.mean.m[i][1]], md |-> cur.mean.d,
                                          cov |-> cur.cov.m, cd |-> cur.cov.d]))
=============================================================================
