----------------------------- MODULE BayesQuad ------------------------------
(* Bayesian quadrature as Gaussian conditioning, and the loop around it.                  *)
(* The integrand is a Gaussian process seen at finitely many points.  Point sets and      *)
(* length scales are chosen such that every kernel value is a power of two and every      *)
(* kernel mean is a rational multiple of a constant (the unit), so beliefs are exact:     *)
(*  "m1"  Matern-1/2, interval [0,4] in steps of (length scale x ln 2), nodes 0..4        *)
(*  "m3"  the same on [0,8], nodes 1..7 (the points of the van der Corput sequence)        *)
(*  "m2"  product Matern-1/2 on the square [0,2]^2                                        *)
(*  "eg1" exponentiated quadratic and a Gaussian measure, line                            *)
(*  "eg2" the same in the plane                                                           *)
(* The belief is conditioned on one value at a time; the integral has covariance cI with  *)
(* the function values, and its prior variance (irrational) is only ever reduced by red.  *)
EXTENDS Gauss, TLC, Json
CONSTANTS Kerns, Jits, MaxData, Sizes, Modes
VARIABLES cfg, b, data, hist, phase
vars == <<cfg, b, data, hist, phase>>
Half(n) == Pow(2, n)
Pts(k) == CASE k = "m1" -> << <<0>>, <<1>>, <<2>>, <<3>>, <<4>> >>
            [] k = "m3" -> << <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>> >>
            [] k = "m2" -> << <<0, 0>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 0>> >>
            [] k = "eg1" -> << <<-1>>, <<0>>, <<1>> >>
            [] k = "eg2" -> << <<0, 0>>, <<1, 0>>, <<0, -1>>, <<1, -1>> >>
NP(k) == Len(Pts(k))
Dist(x, y) == SumSeq([i \in 1..Len(x) |-> Abs(x[i] - y[i])])
Dist2(x, y) == SumSeq([i \in 1..Len(x) |-> (x[i] - y[i]) * (x[i] - y[i])])
Expo(k, x, y) == IF k \in {"m1", "m2", "m3"} THEN Dist(x, y) ELSE 2 * Dist2(x, y)      \* kernel value 2^-Expo
Top(k) == CASE k = "m1" -> 4 [] k = "m2" -> 4 [] k = "m3" -> 8 [] k = "eg1" -> 8 [] k = "eg2" -> 8
Gram(k) == LET P == Pts(k)
               F(i, j) == Half(Top(k) - Expo(k, P[i], P[j]))
           IN Norm(Mk(NP(k), NP(k), F, Half(Top(k))))
Width(k) == CASE k = "m1" -> 4 [] k = "m3" -> 8 [] OTHER -> 2
Mean1(w, i) == 2 * Half(w) - Half(w - i) - Half(i)                                \* over 2^w
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
KMean(k) == LET P == Pts(k)
            IN IF k \in {"m1", "m2", "m3"}
               THEN LET F(i, j) == ProdSeq([a \in 1..Len(P[i]) |-> Mean1(Width(k), P[i][a])])
                    IN Norm(Mk(NP(k), 1, F, Pow(Half(Width(k)), Len(P[1]))))
               ELSE LET F(i, j) == Half(2 - Dist2(P[i], [a \in 1..Len(P[i]) |-> 0])) IN Norm(Mk(NP(k), 1, F, 4))
S1(n, d) == Norm([r |-> 1, c |-> 1, m |-> <<<<n>>>>, d |-> d])
El(a, i, j) == SubM(a, i, i, j, j)
Prior(k) == [mu |-> ZeroM(NP(k), 1), C |-> Gram(k), mI |-> S1(0, 1), cI |-> KMean(k), red |-> S1(0, 1), q |-> S1(0, 1)]
(* conditioning on  f(point j) + noise = y *)
Observe(s, j, y, jit) ==
    IF IsNone(s.C) THEN [mu |-> None, C |-> None, mI |-> None, cI |-> None, red |-> None, q |-> None]
    ELSE LET v == GAdd(El(s.C, j, j), S1(jit[1], jit[2]))
             iv == GInv(v)
             inn == IF IsNone(s.mu) THEN None ELSE GSub(S1(y, 1), El(s.mu, j, 1))
             col == SubM(s.C, 1, s.C.r, j, j)
             cj == IF IsNone(s.cI) THEN None ELSE El(s.cI, j, 1)
         IN [mu |-> GAdd(s.mu, GMul(col, GMul(iv, inn))),
             C |-> GSub(s.C, GMul(col, GMul(iv, GT(col)))),
             mI |-> GAdd(s.mI, GMul(cj, GMul(iv, inn))),
             cI |-> GSub(s.cI, GMul(col, GMul(iv, cj))),
             red |-> GAdd(s.red, GMul(cj, GMul(iv, cj))),
             q |-> GAdd(s.q, GMul(inn, GMul(iv, inn)))]
RECURSIVE ObserveAll(_, _, _)
ObserveAll(s, d, jit) == IF d = <<>> THEN s ELSE ObserveAll(Observe(s, Head(d).j, Head(d).y, jit), Tail(d), jit)
Sound(s) == ~IsNone(s.mu) /\ ~IsNone(s.C) /\ ~IsNone(s.mI) /\ ~IsNone(s.cI) /\ ~IsNone(s.red) /\ ~IsNone(s.q)
Vals == {-2, 1, 3}
Init == /\ \E k \in Kerns, jt \in Jits, m \in Modes : cfg = [kern |-> k, jit |-> IF jt = 0 THEN <<0, 1>> ELSE <<1, jt>>, scale |-> m]
        /\ b = Prior(cfg.kern) /\ data = <<>> /\ hist = <<>> /\ phase = "run"
Fresh(j) == cfg.jit[1] # 0 \/ \A i \in DOMAIN data : data[i].j # j
(* one more value of the current batch; the batch ends when Close happens *)
Add == /\ phase = "run" /\ Len(data) < MaxData
       /\ \E j \in 1..NP(cfg.kern) :
             /\ Fresh(j)
             /\ \E y \in Vals : data' = Append(data, [j |-> j, y |-> y]) /\ b' = Observe(b, j, y, cfg.jit)
       /\ Sound(b')
       /\ UNCHANGED <<cfg, hist, phase>>
Taken == SumSeq([i \in DOMAIN hist |-> hist[i].n])
Close == /\ phase = "run" /\ Len(data) - Taken \in Sizes
         /\ hist' = Append(hist, [n |-> Len(data) - Taken, b |-> b])
         /\ UNCHANGED <<cfg, b, data, phase>>
Finish == phase = "run" /\ data # <<>> /\ Len(data) = Taken /\ phase' = "done" /\ UNCHANGED <<cfg, b, data, hist>>
Next == Add \/ Close \/ Finish
(* ---- the properties of the belief ---- *)
Same(a, c) == IsNone(a) \/ IsNone(c) \/ a = c
SameB(s, u) == Same(s.mu, u.mu) /\ Same(s.C, u.C) /\ Same(s.mI, u.mI) /\ Same(s.cI, u.cI) /\ Same(s.red, u.red) /\ Same(s.q, u.q)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rotate(s) == IF s = <<>> THEN s ELSE Append(Tail(s), Head(s))
(* the belief depends on the data only, not on their order or on how they came in batches *)
OrderFree == phase = "done" => /\ SameB(b, ObserveAll(Prior(cfg.kern), Reverse(data), cfg.jit))
                                /\ SameB(b, ObserveAll(Prior(cfg.kern), Rotate(data), cfg.jit))
(* one-shot conditioning: mean = z' G^-1 f, reduction = z' G^-1 z *)
OneShot ==
    phase = "done" =>
    LET n == Len(data)
        G == Gram(cfg.kern)  z == KMean(cfg.kern)
        GG(i, j) == G.m[data[i].j][data[j].j]
        ZZ(i, j) == z.m[data[i].j][1]
        FF(i, j) == data[i].y
        K == GAdd(Norm(Mk(n, n, GG, G.d)), GScale(cfg.jit[1], cfg.jit[2], Ident(n)))
        w == GMul(GInv(K), Norm(Mk(n, 1, ZZ, z.d)))
        f == Mk(n, 1, FF, 1)
    IN /\ Same(b.mI, GMul(GT(w), f)) /\ Same(b.red, GMul(GT(w), Norm(Mk(n, 1, ZZ, z.d))))
       /\ Same(b.q, GMul(GT(f), GMul(GInv(K), f)))
(* exact data are interpolated, and no observation increases the uncertainty *)
Interpolates == cfg.jit[1] = 0 => \A i \in DOMAIN data : b.mu.m[data[i].j][1] = data[i].y * b.mu.d /\ b.C.m[data[i].j][data[i].j] = 0
Le(a, c) == a.m[1][1] * c.d <= c.m[1][1] * a.d
Shrinks == \A i \in DOMAIN hist : i > 1 => Le(hist[i - 1].b.red, hist[i].b.red)
EmitInv == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, data |-> data, hist |-> hist]))
=============================================================================
