---------------------------- MODULE NonlinFilter ----------------------------
(* Filtering and smoothing of nonlinear state-space models by linearisation.              *)
(* Dynamics and measurements are vectors of quadratic polynomials, so that both kinds of  *)
(* linearisation are exact rational operations: Taylor expansion at a point (extended     *)
(* Kalman filter) and statistical linear regression with the spherical cubature rule      *)
(* (unscented Kalman filter).  A run turns the nonlinear model into a ledger of affine    *)
(* facts -- linearised at the current belief, or all of them at a given previous          *)
(* posterior (one step of iterated smoothing / Gauss-Newton) -- and filter and smoother   *)
(* are required to be the posterior of exactly that ledger, conditioned in one go.        *)
EXTENDS Gauss, TLC, Json
CONSTANTS Dim, MaxLoc

ColV(v, d) == Norm([r |-> Len(v), c |-> 1, d |-> d, m |-> [i \in 1..Len(v) |-> <<v[i]>>]])
Rows(m, d) == Norm([r |-> Len(m), c |-> Len(m[1]), d |-> d, m |-> m])
Sc(n, d) == Norm([r |-> 1, c |-> 1, d |-> d, m |-> <<<<n>>>>])

(* ---- quadratic vector functions  c + L x + (x' H_i x)_i ---- *)
Fn(c, L, H) == [c |-> c, L |-> L, H |-> H]
RECURSIVE Stack(_)
Stack(s) == IF Len(s) = 1 THEN s[1] ELSE VCat(s[1], Stack(Tail(s)))
QuadOf(F, x) == Stack([i \in 1..Len(F.H) |-> GMul(GT(x), GMul(F.H[i], x))])
Val(F, x) == GAdd(F.c, GAdd(GMul(F.L, x), QuadOf(F, x)))
Jac(F, x) == GAdd(F.L, Stack([i \in 1..Len(F.H) |-> GScale(2, 1, GMul(GT(x), F.H[i]))]))

(* an affine fact: y = A x + s + noise(E), E the extra noise of the linearisation *)
Aff(A, s, E) == [A |-> A, s |-> s, E |-> E]
Taylor(F, b) == LET J == Jac(F, b.m) IN Aff(J, GSub(Val(F, b.m), GMul(J, b.m)), ZeroM(Len(F.H), Len(F.H)))
(* spherical cubature: the points m + sqrt(d) * (columns of the lower Cholesky factor), both signs *)
Elem(a, i, j) == SubM(a, i, i, j, j)
FirstCol(F, P) == \* L_1' H_i L_1 with L_1 = P[:,1] / sqrt(P11)
    LET l == SubM(P, 1, P.r, 1, 1) IN GMul(QuadOf(F, l), GInv(Elem(P, 1, 1)))
TraceCol(F, P) == Stack([i \in 1..Len(F.H) |-> LET T == GMul(F.H[i], P)
                                               IN IF IsNone(T) THEN None ELSE Sc(Trace(T), T.d)])
Cubature(F, b) ==
    IF ~Known(b) THEN Aff(None, None, None)
    ELSE LET J == Jac(F, b.m)
             T == TraceCol(F, b.P)
             q1 == FirstCol(F, b.P)
             df == GSub(GScale(2, 1, q1), T)                                 \* q1 - q2
             E == IF Dim = 1 THEN ZeroM(Len(F.H), Len(F.H)) ELSE GMul(df, GT(df))
         IN Aff(J, GAdd(GSub(Val(F, b.m), GMul(J, b.m)), T), E)
Lin(kind, F, b) == IF kind = "ukf" THEN Cubature(F, b) ELSE Taylor(F, b)

(* ---- the models ---- *)
Z1 == Rows(<<<<0>>>>, 1)
Z2 == Rows(<<<<0, 0>>, <<0, 0>>>>, 1)
DynNames == IF Dim = 1 THEN {"lin", "quad"} ELSE {"lin", "quad", "bil", "sde"}
DynF(n, tau) ==
    CASE Dim = 1 /\ n = "lin" -> Fn(ColV(<<tau % 2>>, 1), Rows(<<<<1>>>>, 1), <<Z1>>)
      [] Dim = 1 /\ n = "quad" -> Fn(ColV(<<tau % 2>>, 1), Rows(<<<<1>>>>, 1), <<Rows(<<<<1>>>>, 2)>>)
      [] Dim = 2 /\ n = "lin" -> Fn(ColV(<<0, tau % 3>>, 1), Rows(<<<<1, 1>>, <<0, 1>>>>, 1), <<Z2, Z2>>)
      [] Dim = 2 /\ n = "quad" -> Fn(ColV(<<tau % 2, 0>>, 1), Rows(<<<<1, 1>>, <<0, 1>>>>, 1),
                                     <<Z2, Rows(<<<<-1, 0>>, <<0, 0>>>>, 2)>>)
      [] OTHER -> Fn(ColV(<<0, 1 - (tau % 2)>>, 1), Rows(<<<<1, 0>>, <<0, 1>>>>, 1),
                     <<Rows(<<<<0, 1>>, <<1, 0>>>>, 2), Z2>>)                 \* "bil": x1 + x1 x2
DynQ(tau) == IF Dim = 1 THEN Sc(1 + (tau % 2), 1) ELSE Rows(<<<<1 + (tau % 2), 0>>, <<0, 1>>>>, 1)
(* the stochastic differential equation dx = (x2^2/2 + 1, -1) dt + dW, drift linearised   *)
(* at x2 = a: exact transition of the linearised equation over a time step h              *)
SdeStep(b, h) ==
    IF IsNone(b.m) THEN [A |-> None, s |-> None, Q |-> None]
    ELSE LET a == Elem(b.m, 2, 1)
             ah == GScale(h, 1, a)
             aa == GMul(a, a)
             A == VCat(HCat(Sc(1, 1), ah), Rows(<<<<0, 1>>>>, 1))
             s == VCat(GSub(GScale(h, 1, GSub(Sc(1, 1), GScale(1, 2, aa))), GScale(h * h, 2, a)), Sc(0 - h, 1))
             o == GScale(h * h, 2, a)
             Q == VCat(HCat(GAdd(Sc(h, 1), GScale(h * h * h, 3, aa)), o), HCat(o, Sc(h, 1)))
         IN [A |-> A, s |-> s, Q |-> Q]
MeasNames == IF Dim = 1 THEN {"lin", "sq", "two"} ELSE {"lin", "sq", "prod", "rad"}
MeasF(n, t) ==
    CASE Dim = 1 /\ n = "lin" -> Fn(ColV(<<t % 2>>, 1), Rows(<<<<1>>>>, 1), <<Z1>>)
      [] Dim = 1 /\ n = "sq" -> Fn(ColV(<<0 - (t % 2)>>, 1), Rows(<<<<0>>>>, 1), <<Rows(<<<<1>>>>, 1)>>)
      [] Dim = 1 /\ n = "two" -> Fn(ColV(<<0, 1>>, 1), Rows(<<<<1>>, <<-1>>>>, 1), <<Z1, Rows(<<<<1>>>>, 2)>>)
      [] Dim = 2 /\ n = "lin" -> Fn(ColV(<<t % 2>>, 1), Rows(<<<<1, 0>>>>, 1), <<Z2>>)
      [] Dim = 2 /\ n = "sq" -> Fn(ColV(<<0>>, 1), Rows(<<<<0, 1>>>>, 1), <<Rows(<<<<1, 0>>, <<0, 0>>>>, 1)>>)
      [] Dim = 2 /\ n = "prod" -> Fn(ColV(<<t % 2>>, 1), Rows(<<<<0, 0>>>>, 1), <<Rows(<<<<0, 1>>, <<1, 0>>>>, 2)>>)
      [] OTHER -> Fn(ColV(<<0, 0>>, 1), Rows(<<<<0, 0>>, <<1, 0>>>>, 1), <<Rows(<<<<1, 0>>, <<0, 1>>>>, 1), Z2>>)
OutDim(n) == IF n \in {"two", "rad"} THEN 2 ELSE 1
MeasR(n, t) == IF OutDim(n) = 1 THEN Sc(1 + (t % 3), 1) ELSE Rows(<<<<1, 0>>, <<0, 1 + (t % 2)>>>>, 1)
Kinds == {"ekf", "ukf"}
M0 == IF Dim = 1 THEN ColV(<<1>>, 1) ELSE ColV(<<1, -1>>, 1)
P0(ds) == IF Dim = 1 THEN Sc(1 + (ds % 2), 1) ELSE Rows(<<<<1, ds % 2>>, <<ds % 2, 2>>>>, 1)
DataAt(n, k, ds) == ColV([i \in 1..OutDim(k) |-> ((n + i + ds) % 3)], 1)
(* the previous posterior of iterated smoothing: any trajectory of beliefs *)
PrevAt(n, ds) == Bel(IF Dim = 1 THEN ColV(<<((n + ds) % 3) - 1>>, 1)
                     ELSE ColV(<<((n + ds) % 3) - 1, 1 - ((n * ds) % 3)>>, 1),
                     IF Dim = 1 THEN Sc(1 + ((n + ds) % 2), 1)
                     ELSE Rows(<<<<1 + (n % 2), (n + ds) % 2>>, <<(n + ds) % 2, 2>>>>, 1))

VARIABLES cfg, locs, meas, moves, filt, smth, joint, phase
vars == <<cfg, locs, meas, moves, filt, smth, joint, phase>>
(* moves[i]: the affine dynamics that lead to location i; meas[i]: the affine measurement there *)
Init == /\ cfg \in [dyn : DynNames, kind : Kinds, mode : {"first", "iter"}, ds : 0..2]
        /\ (cfg.dyn = "sde" => cfg.kind = "ekf")
        /\ locs = <<>> /\ meas = <<>> /\ moves = <<>> /\ filt = <<>> /\ smth = <<>>
        /\ joint = Bel(M0, P0(cfg.ds)) /\ phase = "filter"
N == Len(locs)
PrevT == IF N = 0 THEN 0 ELSE locs[N]
PrevB == IF N = 0 THEN Bel(M0, P0(cfg.ds)) ELSE filt[N]
(* where the dynamics from the last location are linearised: the initial belief, or the previous posterior *)
DynAt == IF cfg.mode = "iter" /\ N > 0 THEN PrevAt(N, cfg.ds)
         ELSE IF cfg.mode = "iter" /\ N = 0 THEN Bel(M0, P0(cfg.ds)) ELSE PrevB
MoveFact(tau, h) ==
    IF cfg.dyn = "sde" THEN SdeStep(DynAt, h)
    ELSE LET f == Lin(cfg.kind, DynF(cfg.dyn, tau), DynAt) IN [A |-> f.A, s |-> f.s, Q |-> GAdd(f.E, DynQ(tau))]
Still == [A |-> Ident(Dim), s |-> ZeroM(Dim, 1), Q |-> ZeroM(Dim, Dim)]
(* extend the joint prior of all states by one more state *)
Grow(J, f) ==
    IF ~Known(J) THEN Bel(None, None)
    ELSE LET n == J.m.r
             C == GMul(f.A, SubM(J.P, n - Dim + 1, n, 1, n))
             b == Push(Bel(SubM(J.m, n - Dim + 1, n, 1, 1), SubM(J.P, n - Dim + 1, n, n - Dim + 1, n)), f.A, f.s, f.Q)
         IN Bel(VCat(J.m, b.m), VCat(HCat(J.P, GT(C)), HCat(C, b.P)))
Locate ==
    /\ phase = "filter" /\ N < MaxLoc
    /\ \E h \in (IF N = 0 THEN {0, 1} ELSE {1, 2}), k \in MeasNames, kind \in Kinds :
         LET t == PrevT + h
             mv == IF h = 0 THEN Still ELSE MoveFact(PrevT, h)
             p == IF h = 0 THEN PrevB ELSE Push(PrevB, mv.A, mv.s, mv.Q)
             at == IF cfg.mode = "iter" THEN PrevAt(N + 1, cfg.ds) ELSE p
             f == Lin(kind, MeasF(k, t), at)
             R == GAdd(f.E, MeasR(k, t))
             y == DataAt(N + 1, k, cfg.ds)
         IN /\ locs' = Append(locs, t)
            /\ moves' = Append(moves, [h |-> h, A |-> mv.A, s |-> mv.s, Q |-> mv.Q])
            /\ meas' = Append(meas, [k |-> k, kind |-> kind, y |-> y, H |-> f.A, c |-> f.s, R |-> R])
            /\ filt' = Append(filt, Cond(p, f.A, f.s, R, y))
            /\ joint' = IF h = 0 THEN joint ELSE Grow(joint, mv)
    /\ UNCHANGED <<cfg, smth, phase>>
StartSmooth == /\ phase = "filter" /\ N = MaxLoc /\ smth' = <<filt[N]>> /\ phase' = "smooth"
               /\ UNCHANGED <<cfg, locs, meas, moves, filt, joint>>
SmoothStep == /\ phase = "smooth" /\ Len(smth) < N
              /\ LET i == N - Len(smth)  f == moves[i + 1]
                 IN smth' = <<Back(filt[i], f.A, f.s, f.Q, smth[1])>> \o smth
              /\ UNCHANGED <<cfg, locs, meas, moves, filt, joint, phase>>
Finish == /\ phase = "smooth" /\ Len(smth) = N /\ phase' = "done"
          /\ UNCHANGED <<cfg, locs, meas, moves, filt, smth, joint>>
Next == Locate \/ StartSmooth \/ SmoothStep \/ Finish

(* ---- theorems ---- *)
SameBel(a, b) == (Known(a) /\ Known(b)) => (a.m = b.m /\ a.P = b.P)
Off == IF N > 0 /\ moves[1].h = 0 THEN 0 ELSE 1                \* index of location i's state in the joint
ObsRow(i) == LET z == ZeroM(meas[i].y.r, Dim)
                 RECURSIVE B(_)
                 B(j) == LET blk == IF j = i + Off THEN meas[i].H ELSE z IN IF j = 1 THEN blk ELSE HCat(B(j - 1), blk)
             IN B(N + Off)
RECURSIVE StackH(_), StackR(_), StackC(_), StackY(_)
StackH(i) == IF i = 1 THEN ObsRow(1) ELSE VCat(StackH(i - 1), ObsRow(i))
StackR(i) == IF i = 1 THEN meas[1].R ELSE Blk2(StackR(i - 1), meas[i].R)
StackC(i) == IF i = 1 THEN meas[1].c ELSE VCat(StackC(i - 1), meas[i].c)
StackY(i) == IF i = 1 THEN meas[1].y ELSE VCat(StackY(i - 1), meas[i].y)
Batch == Cond(joint, StackH(N), StackC(N), StackR(N), StackY(N))
Part(b, i) == LET lo == ((i + Off - 1) * Dim) + 1  hi == (i + Off) * Dim
              IN IF Known(b) THEN Bel(SubM(b.m, lo, hi, 1, 1), SubM(b.P, lo, hi, lo, hi)) ELSE Bel(None, None)
PosteriorOfLedger == phase = "done" => \A i \in 1..N : SameBel(smth[i], Part(Batch, i))
FilterIsPosterior == (phase = "done" /\ N > 0) => SameBel(filt[N], Part(Batch, N))
(* the linearisations agree on affine functions and touch the function where they are exact *)
AffineExact == phase = "done" => \A i \in 1..N :
    (meas[i].k = "lin" /\ ~IsNone(meas[i].R) /\ ~IsNone(meas[i].c)) => (meas[i].H = MeasF("lin", locs[i]).L /\ meas[i].c = MeasF("lin", locs[i]).c
                            /\ meas[i].R = MeasR("lin", locs[i]))
CovariancesValid == phase = "done" => \A i \in 1..Len(filt) : Known(filt[i]) => PSD2(filt[i].P)
EmitInv == phase = "done" => PrintT("@@" \o ToJson(
    [dim |-> Dim, cfg |-> cfg, m0 |-> M0, P0 |-> P0(cfg.ds), locs |-> locs, moves |-> moves, meas |-> meas,
     dynF |-> [i \in 1..N |-> DynF(cfg.dyn, locs[i] - moves[i].h)], dynQ |-> [i \in 1..N |-> DynQ(locs[i] - moves[i].h)],
     measF |-> [i \in 1..N |-> MeasF(meas[i].k, locs[i])], measR |-> [i \in 1..N |-> MeasR(meas[i].k, locs[i])],
     prev |-> [i \in 1..N |-> PrevAt(i, cfg.ds)], filt |-> filt, smth |-> smth]))
=============================================================================
