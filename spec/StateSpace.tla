----------------------------- MODULE StateSpace -----------------------------
(* Filtering and smoothing of a linear Gaussian state-space model.                        *)
(* The ledger lists the facts: prior, how the state moves between locations, what was     *)
(* observed.  The filter moves forward one location at a time, the smoother backward;     *)
(* both are required to produce the ledger's posterior: prior conditioned, in one go, on  *)
(* all facts up to that location (filter) or on all facts (smoother).                     *)
EXTENDS Gauss, TLC, Json
CONSTANTS Family, MaxLoc

Row1(v, d) == [r |-> 1, c |-> Len(v), d |-> d, m |-> <<v>>]
ColV(v, d) == [r |-> Len(v), c |-> 1, d |-> d, m |-> [i \in 1..Len(v) |-> <<v[i]>>]]
Rows(m, d) == Norm([r |-> Len(m), c |-> Len(m[1]), d |-> d, m |-> m])

(* integrated Wiener process of order q: exact transition over a step of h/2 *)
Fact(n) == IF n <= 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE 6
IWPA(q, h) == IF q = 1 THEN Rows(<<<<2, h>>, <<0, 2>>>>, 2)
              ELSE IF q = 0 THEN Rows(<<<<1>>>>, 1)
              ELSE Rows(<<<<8, 4 * h, h * h>>, <<0, 8, 4 * h>>, <<0, 0, 8>>>>, 8)
IWPQ(q, h) == IF q = 1 THEN Rows(<<<<h * h * h, 3 * h * h>>, <<3 * h * h, 12 * h>>>>, 24)
              ELSE IF q = 0 THEN Rows(<<<<h>>>>, 2)
              ELSE Rows(<<<<3 * Pow(h, 5), 15 * Pow(h, 4), 40 * Pow(h, 3)>>,
                          <<15 * Pow(h, 4), 80 * Pow(h, 3), 240 * h * h>>,
                          <<40 * Pow(h, 3), 240 * h * h, 960 * h>>>>, 1920)

(* models: dimension, prior belief, transition over a step of h half-units starting at tau *)
Mod(name, d, m0, P0) == [name |-> name, d |-> d, m0 |-> m0, P0 |-> P0]
Models ==
  CASE Family = "lti" -> {Mod("lti1", 1, ColV(<<1>>, 1), Rows(<<<<2>>>>, 1)),
                          Mod("lti2", 2, ColV(<<1, -1>>, 1), Rows(<<<<2, 1>>, <<1, 2>>>>, 1)),
                          Mod("lti2n", 2, ColV(<<0, 2>>, 1), Rows(<<<<1, 0>>, <<0, 3>>>>, 1))}
    [] Family = "tv"  -> {Mod("tv1", 1, ColV(<<1>>, 1), Rows(<<<<2>>>>, 1)),
                          Mod("tv2", 2, ColV(<<1, -1>>, 1), Rows(<<<<2, 1>>, <<1, 2>>>>, 1))}
    [] Family = "iwp" -> {Mod("iwp0", 1, ColV(<<1>>, 1), Rows(<<<<1>>>>, 1)),
                          Mod("iwp1", 2, ColV(<<1, 2>>, 1), Rows(<<<<1, 0>>, <<0, 1>>>>, 1)),
                          Mod("iwp1d", 2, ColV(<<0, 1>>, 1), Rows(<<<<4, 1>>, <<1, 2>>>>, 1))}
    [] Family = "sde" -> {Mod("nil2", 2, ColV(<<1, 0>>, 1), Rows(<<<<1, 0>>, <<0, 2>>>>, 1)),
                          Mod("lin1", 1, ColV(<<2>>, 1), Rows(<<<<1>>>>, 1))}
    [] Family = "iwp2" -> {Mod("iwp2", 3, ColV(<<1, 0, 2>>, 1), Rows(<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, 1))}
TrA(mod, tau, h) ==
  CASE mod.name = "lti1" -> Rows(<<<<2>>>>, 1)
    [] mod.name = "lti2" -> Rows(<<<<1, 1>>, <<0, 1>>>>, 1)
    [] mod.name = "lti2n" -> Rows(<<<<1, 2>>, <<-1, 1>>>>, 1)
    [] mod.name = "tv1" -> Rows(<<<<1 + (tau % 3)>>>>, 1)
    [] mod.name = "tv2" -> Rows(<<<<1, tau % 3>>, <<0 - (tau % 2), 1>>>>, 1)
    [] mod.name = "iwp0" -> IWPA(0, h)
    [] mod.name = "iwp2" -> IWPA(2, h)
    [] mod.name = "lin1" -> Rows(<<<<2 + tau>>>>, 2 + tau + h)                          \* drift -1/(1+t)
    [] OTHER -> IWPA(1, h)
TrQ(mod, tau, h) ==
  CASE mod.name = "lti1" -> Rows(<<<<1>>>>, 1)
    [] mod.name = "lti2" -> Rows(<<<<1, 0>>, <<0, 1>>>>, 1)
    [] mod.name = "lti2n" -> Rows(<<<<2, 1>>, <<1, 1>>>>, 1)
    [] mod.name = "tv1" -> Rows(<<<<1 + (tau % 2)>>>>, 1)
    [] mod.name = "tv2" -> Rows(<<<<2, 1>>, <<1, 1 + (tau % 4)>>>>, 1)
    [] mod.name = "iwp0" -> IWPQ(0, h)
    [] mod.name = "iwp2" -> IWPQ(2, h)
    [] mod.name = "nil2" -> Rows(<<<<(12 * h) + Pow(h, 3), 3 * h * h>>, <<3 * h * h, 12 * h>>>>, 24)
    [] mod.name = "lin1" -> LET a == 2 + tau  b == 2 + tau + h IN Rows(<<<<Pow(b, 3) - Pow(a, 3)>>>>, 6 * b * b)
    [] OTHER -> IWPQ(1, h)
TrS(mod, tau, h) ==
  CASE mod.name = "lti2n" -> ColV(<<1, -2>>, 1)
    [] mod.name = "tv2" -> ColV(<<tau % 2, 1>>, 1)
    [] mod.name = "tv1" -> ColV(<<tau % 4>>, 1)
    [] mod.name = "nil2" -> ColV(<<(4 * h) - (3 * h * h), 0 - (12 * h)>>, 8)            \* force (1, -3)
    [] mod.name = "lin1" -> LET a == 2 + tau  b == 2 + tau + h IN ColV(<<(b * b) - (a * a)>>, 4 * b)
    [] OTHER -> ZeroM(mod.d, 1)
(* measurement models: matrix, shift, noise; kind "tvm" depends on the location *)
MeasKinds(d) == IF d = 1 THEN {"full", "tvm"} ELSE {"full", "first", "sum", "tvm"}
MH(k, d, tau) == CASE k = "full" -> Ident(d)
                   [] k = "first" -> Row1([i \in 1..d |-> IF i = 1 THEN 1 ELSE 0], 1)
                   [] k = "sum" -> Row1([i \in 1..d |-> IF i = 1 THEN 2 ELSE 1], 1)
                   [] k = "tvm" -> Row1([i \in 1..d |-> IF i = 1 THEN 1 + (tau % 2) ELSE tau % 3], 1)
MR(k, d, tau) == CASE k = "full" -> DiagM([i \in 1..d |-> i], 1)
                   [] k = "first" -> Rows(<<<<1>>>>, 1)
                   [] k = "sum" -> Rows(<<<<1>>>>, 2)
                   [] k = "tvm" -> Rows(<<<<1 + (tau % 4)>>>>, 1)
MC(k, d, tau) == CASE k = "sum" -> ColV(<<1>>, 1) [] k = "tvm" -> ColV(<<tau % 2>>, 1)
                   [] OTHER -> ZeroM(IF k = "full" THEN d ELSE 1, 1)
Data(k, d, n) == IF k = "full" THEN ColV([i \in 1..d |-> ((n * i) % 3) + i - 1], 1) ELSE ColV(<<(n % 3) * 2>>, 1)

VARIABLES mod, locs, meas, filt, smth, joint, phase
vars == <<mod, locs, meas, filt, smth, joint, phase>>
(* joint: the batch belief over the stacked states at all locations so far, given nothing; *)
(* the batch posterior is obtained from it in a single conditioning                        *)
Init == /\ mod \in Models /\ locs = <<>> /\ meas = <<>> /\ filt = <<>> /\ smth = <<>>
        /\ joint = Bel(None, None) /\ phase = "filter"
N == Len(locs)
PrevT == IF N = 0 THEN 0 ELSE locs[N]
PrevB == IF N = 0 THEN Bel(mod.m0, mod.P0) ELSE filt[N]
Gaps == IF N = 0 THEN {0, 2} ELSE {1, 2, 3}
Move(b, tau, h) == IF h = 0 THEN b ELSE Push(b, TrA(mod, tau, h), TrS(mod, tau, h), TrQ(mod, tau, h))
(* the last d rows of the joint covariance extended by one more state *)
Grow(J, tau, h) ==
    IF N = 0 THEN Move(Bel(mod.m0, mod.P0), tau, h)
    ELSE LET A == TrA(mod, tau, h)  n == J.m.r
             last == IF IsNone(J.P) THEN None ELSE SubM(J.P, n - mod.d + 1, n, 1, n)   \* Cov(x_last, all)
             C == GMul(A, last)                                                        \* Cov(x_new, all)
             b == Push(Bel(IF IsNone(J.m) THEN None ELSE SubM(J.m, n - mod.d + 1, n, 1, 1),
                           IF IsNone(J.P) THEN None ELSE SubM(J.P, n - mod.d + 1, n, n - mod.d + 1, n)),
                       A, TrS(mod, tau, h), TrQ(mod, tau, h))
         IN Bel(VCat(J.m, b.m), VCat(HCat(J.P, GT(C)), HCat(C, b.P)))
Locate == /\ phase = "filter" /\ N < MaxLoc
          /\ \E h \in Gaps, k \in MeasKinds(mod.d) :
               LET t == PrevT + h
                   p == Move(PrevB, PrevT, h)
                   y == Data(k, mod.d, N + 1)
               IN /\ locs' = Append(locs, t)
                  /\ meas' = Append(meas, [k |-> k, y |-> y])
                  /\ filt' = Append(filt, Cond(p, MH(k, mod.d, t), MC(k, mod.d, t), MR(k, mod.d, t), y))
                  /\ joint' = Grow(joint, PrevT, h)
          /\ UNCHANGED <<mod, smth, phase>>
StartSmooth == /\ phase = "filter" /\ N = MaxLoc
               /\ smth' = <<filt[N]>> /\ phase' = "smooth" /\ UNCHANGED <<mod, locs, meas, filt, joint>>
SmoothStep == /\ phase = "smooth" /\ Len(smth) < N
              /\ LET i == N - Len(smth)
                     h == locs[i + 1] - locs[i]
                 IN smth' = <<Back(filt[i], TrA(mod, locs[i], h), TrS(mod, locs[i], h), TrQ(mod, locs[i], h), smth[1])>> \o smth
              /\ UNCHANGED <<mod, locs, meas, filt, joint, phase>>
Finish == /\ phase = "smooth" /\ Len(smth) = N /\ phase' = "done"
          /\ UNCHANGED <<mod, locs, meas, filt, smth, joint>>
Next == Locate \/ StartSmooth \/ SmoothStep \/ Finish

(* ---- the design theorem: recursive equals batch ---- *)
RECURSIVE StackH(_), StackR(_), StackC(_), StackY(_)
HAt(i) == MH(meas[i].k, mod.d, locs[i])
StackH(i) == IF i = 1 THEN HAt(1) ELSE Blk2(StackH(i - 1), HAt(i))
StackR(i) == IF i = 1 THEN MR(meas[1].k, mod.d, locs[1]) ELSE Blk2(StackR(i - 1), MR(meas[i].k, mod.d, locs[i]))
StackC(i) == IF i = 1 THEN MC(meas[1].k, mod.d, locs[1]) ELSE VCat(StackC(i - 1), MC(meas[i].k, mod.d, locs[i]))
StackY(i) == IF i = 1 THEN meas[1].y ELSE VCat(StackY(i - 1), meas[i].y)
Batch == Cond(joint, StackH(N), StackC(N), StackR(N), StackY(N))
SameBel(a, b) == (Known(a) /\ Known(b)) => (a.m = b.m /\ a.P = b.P)
Part(b, i) == LET lo == ((i - 1) * mod.d) + 1  hi == i * mod.d
              IN IF Known(b) THEN Bel(SubM(b.m, lo, hi, 1, 1), SubM(b.P, lo, hi, lo, hi)) ELSE Bel(None, None)
FilterIsPosterior == (phase = "filter" /\ N > 0) => SameBel(filt[N], Part(Batch, N))
SmootherIsPosterior == phase = "done" => \A i \in 1..N : SameBel(smth[i], Part(Batch, i))
CovariancesValid == \A i \in 1..Len(filt) : Known(filt[i]) => PSD2(filt[i].P)
(* smoothing never increases the variance *)
SmoothingShrinks == phase = "done" => \A i \in 1..N : (Known(smth[i]) /\ Known(filt[i])) =>
    \A j \in 1..mod.d : smth[i].P.m[j][j] * filt[i].P.d <= filt[i].P.m[j][j] * smth[i].P.d
EmitInv == phase = "done" => PrintT("@@" \o ToJson(
    [mod |-> mod, locs |-> locs, meas |-> [i \in 1..N |->
        [k |-> meas[i].k, y |-> meas[i].y.m, H |-> MH(meas[i].k, mod.d, locs[i]), c |-> MC(meas[i].k, mod.d, locs[i]),
         R |-> MR(meas[i].k, mod.d, locs[i])]],
     steps |-> [i \in 1..N |-> LET a == IF i = 1 THEN 0 ELSE locs[i - 1]  h == locs[i] - a IN
        IF h = 0 THEN [h |-> 0] ELSE [h |-> h, tau |-> a, A |-> TrA(mod, a, h), s |-> TrS(mod, a, h), Q |-> TrQ(mod, a, h)]],
     filt |-> filt, smth |-> smth]))
=============================================================================
