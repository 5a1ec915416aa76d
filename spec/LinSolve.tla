------------------------------ MODULE LinSolve ------------------------------
(* Probabilistic linear solvers: a loop that stops, or takes an action s (a search        *)
(* direction), observes, and conditions its belief.  "x" solvers hold a Gaussian over the *)
(* solution and condition on s'A x = s'b (+ noise); "mat" and "sym" solvers hold Gaussian *)
(* matrices over A and its inverse with (symmetric) Kronecker covariance and condition on *)
(* A s = y and A^-1 y = s.  All quantities are exact rationals.                           *)
EXTENDS Gauss, TLC, Json
CONSTANTS Kinds, Policies, Crits, Systems, MaxSteps
VARIABLES cfg, bel, acts, hist, phase
vars == <<cfg, bel, acts, hist, phase>>
Col(v) == [r |-> Len(v), c |-> 1, m |-> [i \in 1..Len(v) |-> <<v[i]>>], d |-> 1]
S1(n, d) == Norm([r |-> 1, c |-> 1, m |-> <<<<n>>>>, d |-> d])
Sc(a) == a.m[1][1]
(* ---- systems ---- *)
Mats == << << <<2, 1>>, <<1, 3>> >>, << <<1, 2>>, <<0, 3>> >>, << <<1, 0>>, <<0, 1>> >>, << <<1, -1>>, <<-1, 1>> >>,
           << <<2, 1, 0>>, <<1, 2, 1>>, <<0, 1, 3>> >>, << <<1, 0, 2>>, <<0, 1, 0>>, <<1, 1, -1>> >>, << <<3, 0>>, <<1, -2>> >>, << <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 1>> >> >>
Rhs(n) == IF n = 2 THEN {<<1, 2>>, <<3, -1>>, <<0, 1>>} ELSE {<<1, 2, -1>>, <<0, 3, 1>>}
SymIdx == {1, 3, 5, 8}
Consistent(i) == i # 4
(* ---- priors ---- *)
Covs(n) == IF n = 2 THEN << << <<1, 0>>, <<0, 1>> >>, << <<2, 1>>, <<1, 2>> >>, << <<1, 0>>, <<0, 0>> >> >>
           ELSE << << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, << <<2, 1, 0>>, <<1, 2, 0>>, <<0, 0, 1>> >> >>
Means(n) == IF n = 2 THEN << <<0, 0>>, <<1, -1>> >> ELSE << <<0, 0, 0>>, <<1, 0, -1>> >>
MMeans(n) == IF n = 2 THEN << << <<1, 0>>, <<0, 1>> >>, << <<2, 1>>, <<1, 1>> >>, << <<1, 1>>, <<0, 1>> >> >>
             ELSE << << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, << <<2, 0, 1>>, <<0, 1, 0>>, <<1, 0, 1>> >> >>
(* ---- stopping criteria as terms; tolerances are n/d ---- *)
CritOf(c) == CASE c = "max" -> [op |-> "max", n |-> 2]
               [] c = "max0" -> [op |-> "max", n |-> 0]
               [] c = "over" -> [op |-> "max", n |-> 4]
               [] c = "res" -> [op |-> "or", l |-> [op |-> "max", n |-> 4], r |-> [op |-> "atol", n |-> 3, d |-> 2]]
               [] c = "rel" -> [op |-> "or", l |-> [op |-> "rtol", n |-> 3, d |-> 7], r |-> [op |-> "max", n |-> 3]]
               [] c = "tight" -> [op |-> "or", l |-> [op |-> "max", n |-> 5], r |-> [op |-> "atol", n |-> 1, d |-> 1000]]
               [] c = "con" -> [op |-> "or", l |-> [op |-> "con", n |-> 6, d |-> 5], r |-> [op |-> "max", n |-> 3]]
               [] c = "conr" -> [op |-> "or", l |-> [op |-> "conr", n |-> 1, d |-> 3], r |-> [op |-> "max", n |-> 4]]
               [] c = "and" -> [op |-> "or", l |-> [op |-> "and", l |-> [op |-> "max", n |-> 2], r |-> [op |-> "atol", n |-> 1, d |-> 2]], r |-> [op |-> "max", n |-> 4]]
               [] c = "not" -> [op |-> "not", l |-> [op |-> "and", l |-> [op |-> "not", l |-> [op |-> "max", n |-> 3]], r |-> [op |-> "not", l |-> [op |-> "rtol", n |-> 4, d |-> 5]]]]
Sq(v) == SumSeq([i \in 1..v.r |-> v.m[i][1] * v.m[i][1]])       \* the numerator of |v|^2
SqOk(v) == MaxAbs(v) < 2000 /\ v.d < 2000
(* |v|^2 <= (n/d)^2 w, w a natural number *)
Le2(v, n, d, w) == Sq(v) * d * d <= n * n * w * v.d * v.d
Tie2(v, n, d, w) == Sq(v) * d * d = n * n * w * v.d * v.d
Fits2(v, n, d, w) == SqOk(v) /\ Sq(v) < 2000000000 \div (d * d) /\ v.d * v.d < 2000000000 \div (n * n * w)
TrLe(t, n, d, w) == t.m[1][1] * d * d <= n * n * w * t.d
TrTie(t, n, d, w) == t.m[1][1] * d * d = n * n * w * t.d
TrFits(t, n, d, w) == ~IsNone(t) /\ Abs(t.m[1][1]) < 2000000000 \div (d * d) /\ t.d < 2000000000 \div (n * n * w)
RECURSIVE Stops(_, _), Safe(_, _)
BB == SumSeq([i \in 1..Len(cfg.b) |-> cfg.b[i] * cfg.b[i]])
(* s = [r |-> residual, t |-> trace of the covariance, k |-> step, z |-> an action was zero] *)
Stops(c, s) == CASE c.op = "max" -> s.k >= c.n
                 [] c.op = "atol" -> Le2(s.r, c.n, c.d, 1)
                 [] c.op = "rtol" -> Le2(s.r, c.n, c.d, BB)
                 [] c.op = "con" -> TrLe(s.t, c.n, c.d, 1)
                 [] c.op = "conr" -> TrLe(s.t, c.n, c.d, BB)
                 [] c.op = "and" -> Stops(c.l, s) /\ Stops(c.r, s)
                 [] c.op = "or" -> Stops(c.l, s) \/ Stops(c.r, s)
                 [] c.op = "not" -> ~Stops(c.l, s)
Safe(c, s) == CASE c.op = "max" -> TRUE
                [] c.op = "atol" -> IF Fits2(s.r, c.n, c.d, 1) THEN ~Tie2(s.r, c.n, c.d, 1) ELSE FALSE
                [] c.op = "rtol" -> IF Fits2(s.r, c.n, c.d, BB) THEN ~Tie2(s.r, c.n, c.d, BB) ELSE FALSE
                [] c.op = "con" -> IF ~s.z /\ TrFits(s.t, c.n, c.d, 1) THEN ~TrTie(s.t, c.n, c.d, 1) ELSE FALSE
                [] c.op = "conr" -> IF ~s.z /\ TrFits(s.t, c.n, c.d, BB) THEN ~TrTie(s.t, c.n, c.d, BB) ELSE FALSE
                [] c.op = "not" -> Safe(c.l, s)
                [] OTHER -> Safe(c.l, s) /\ Safe(c.r, s)
(* ---- beliefs ---- *)
AM == FromRows(Mats[cfg.sys])
BV == Col(cfg.b)
IsX == cfg.kind \in {"x", "noisy"}
Noise == IF cfg.kind = "noisy" THEN S1(1, 2) ELSE S1(0, 1)
XStep(s, bb) == LET H == GMul(GT(s), AM)
                    g == GAdd(GMul(H, GMul(bb.P, GT(H))), Noise)
                IN IF ~IsNone(g) /\ Sc(g) = 0 THEN bb ELSE Cond(bb, H, S1(0, 1), Noise, GMul(GT(s), BV))
(* a Gaussian matrix with mean M and right covariance factor W, conditioned on M s = y *)
MStep(M, W, s, y, sym) ==
    LET Ws == GMul(W, s)
        g == GMul(GT(s), Ws)
        u == GMul(Ws, GInv(g))
        dl == GSub(y, GMul(M, s))
    IN IF ~IsNone(g) /\ Sc(g) = 0 THEN [M |-> M, W |-> W]
       ELSE [M |-> IF sym THEN GSub(GAdd(M, GAdd(GMul(dl, GT(u)), GMul(u, GT(dl)))), GMul(GMul(u, GMul(GT(s), dl)), GT(u)))
                   ELSE GAdd(M, GMul(dl, GT(u))),
             W |-> GSub(W, GMul(u, GT(Ws)))]
Tr1(a) == IF IsNone(a) THEN None ELSE S1(Trace(a), a.d)
XOf(bb) == IF IsX THEN bb.m ELSE GMul(bb.H.M, BV)
Resid(bb) == GSub(BV, GMul(AM, XOf(bb)))
(* the covariance of the solution induced by a Gaussian inverse; a symmetric Kronecker   *)
(* product of equal factors acts on matrices as X |-> W X W, as a Kronecker product       *)
XCov(bb) == IF IsX THEN bb.P
            ELSE LET Wb == GMul(bb.H.W, BV)
                     q == GMul(GT(BV), Wb)
                 IN IF IsNone(q) THEN None
                    ELSE IF cfg.kind = "mat" THEN GScale(Sc(q), q.d, FromRows(Covs(Len(cfg.b))[cfg.left]))
                    ELSE GScale(Sc(q), q.d, bb.H.W)
(* the trace that the contraction criterion looks at: of the solution, or of the inverse *)
TrOf(bb) == IF IsX THEN Tr1(bb.P)
            ELSE IF IsNone(bb.H.W) THEN None
            ELSE IF cfg.kind = "mat" THEN GScale(Trace(FromRows(Covs(Len(cfg.b))[cfg.left])), 1, Tr1(bb.H.W))
            ELSE GMul(Tr1(bb.H.W), Tr1(bb.H.W))
Good(bb) == /\ IF IsX THEN Known(bb) ELSE ~IsNone(bb.A.M) /\ ~IsNone(bb.A.W) /\ ~IsNone(bb.H.M) /\ ~IsNone(bb.H.W)
            /\ ~IsNone(Resid(bb)) /\ ~IsNone(TrOf(bb)) /\ ~IsNone(XCov(bb))
Prior == LET n == Len(cfg.b)
         IN IF IsX THEN Bel(Col(Means(n)[cfg.mean]), FromRows(Covs(n)[cfg.cov]))
            ELSE [A |-> [M |-> FromRows(MMeans(n)[cfg.mean]), W |-> FromRows(Covs(n)[cfg.cov])],
                  H |-> [M |-> FromRows(MMeans(n)[3 - cfg.mean]), W |-> FromRows(Covs(n)[3 - cfg.cov])]]
StepB(bb, s) == IF IsX THEN XStep(s, bb)
                ELSE LET y == GMul(AM, s) IN [A |-> MStep(bb.A.M, bb.A.W, s, y, cfg.kind = "sym"), H |-> MStep(bb.H.M, bb.H.W, y, s, cfg.kind = "sym")]
RECURSIVE Run(_, _)
Run(bb, ss) == IF ss = <<>> THEN bb ELSE IF ~Good(bb) THEN bb ELSE Run(StepB(bb, Head(ss)), Tail(ss))
(* ---- the loop ---- *)
Init == \E k \in Kinds, po \in Policies, cr \in Crits, i \in Systems :
          \E b \in Rhs(Len(Mats[i])), mi \in 1..2, ci \in 1..2, le \in 1..2 :
          /\ (k = "sym" => i \in SymIdx) /\ (k # "mat" => le = 1)
          /\ (k \in {"mat", "sym"} => Consistent(i))
          /\ (po = "cg" => cr # "over" \/ k # "x" \/ i \in {3, 8})
          /\ cfg = [kind |-> k, policy |-> po, crit |-> cr, sys |-> i, A |-> Mats[i], b |-> b, mean |-> mi, cov |-> ci, left |-> le]
          /\ bel = None /\ acts = <<>> /\ hist = <<>> /\ phase = "start"
Start == phase = "start" /\ bel' = Prior /\ phase' = "check" /\ UNCHANGED <<cfg, acts, hist>>
ZeroActed == \E i \in DOMAIN acts : MaxAbs(acts[i]) = 0
Now == [r |-> Resid(bel), t |-> TrOf(bel), k |-> Len(acts), z |-> ZeroActed]
Decide == /\ phase = "check" /\ Good(bel) /\ Safe(CritOf(cfg.crit), Now)
          /\ LET stop == Stops(CritOf(cfg.crit), Now)
             IN /\ hist' = Append(hist, [k |-> Len(acts), stop |-> stop, zero |-> ZeroActed, r |-> Resid(bel), x |-> XOf(bel), xc |-> XCov(bel), b |-> bel])
                /\ phase' = IF stop THEN "stopped" ELSE "act"
          /\ UNCHANGED <<cfg, bel, acts>>
Pool(n) == IF n = 2 THEN {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, -1>>} ELSE {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, -1, 1>>, <<0, 1, 2>>}
Units(n) == {[j \in 1..n |-> IF i = j THEN 1 ELSE 0] : i \in 1..n}
(* conjugate gradients: the residual plus a multiple of the previous action *)
CgOk == /\ SqOk(hist[Len(hist)].r) /\ (Len(hist) > 1 => SqOk(hist[Len(hist) - 1].r))
CgAction == LET r == hist[Len(hist)].r
            IN IF Len(hist) = 1 THEN r
               ELSE LET p == hist[Len(hist) - 1].r
                        pn == Sq(p)
                        g == GCD(Sq(r), pn)
                        h == GCD(p.d, r.d)
                        num == (Sq(r) \div g) * (p.d \div h)
                        den == (pn \div g) * (r.d \div h)
                    IN IF pn = 0 THEN r
                       ELSE IF num > 14000 \div (p.d \div h) \/ den > 14000 \div (r.d \div h) THEN None
                       ELSE GAdd(r, GScale(num * (p.d \div h), den * (r.d \div h), acts[Len(acts)]))
(* an action that repeats what is known gives nothing; only a zero action may do that     *)
Grams(s) == IF IsX THEN <<GAdd(GMul(GT(s), GMul(AM, GMul(bel.P, GMul(GT(AM), s)))), Noise)>>
            ELSE LET y == GMul(AM, s) IN <<GMul(GT(s), GMul(bel.A.W, s)), GMul(GT(y), GMul(bel.H.W, y))>>
Fresh(s) == MaxAbs(s) = 0 \/ \A i \in DOMAIN Grams(s) : ~IsNone(Grams(s)[i]) /\ Sc(Grams(s)[i]) # 0
Take(s) == /\ ~IsNone(s) /\ Len(acts) < MaxSteps /\ Fresh(s)
           /\ acts' = Append(acts, s) /\ bel' = StepB(bel, s) /\ phase' = "check" /\ UNCHANGED <<cfg, hist>>
Act == /\ phase = "act"
       /\ IF cfg.policy = "cg" THEN CgOk /\ Take(CgAction)
          ELSE IF cfg.policy = "unit" THEN \E v \in Units(Len(cfg.b)) : Take(Col(v))
          ELSE \E v \in Pool(Len(cfg.b)) : Take(Col(v))
Finish == phase = "stopped" /\ phase' = "done" /\ UNCHANGED <<cfg, bel, acts, hist>>
Next == Start \/ Decide \/ Act \/ Finish
(* ---- properties of the model ---- *)
Zero(a) == IsNone(a) \/ MaxAbs(a) = 0
Same(a, c) == IsNone(a) \/ IsNone(c) \/ a = c
Usable(s) == LET H == GMul(GT(s), AM) IN ~IsNone(H)
(* what was observed stays observed *)
Consistency ==
    phase = "done" => \A i \in DOMAIN acts :
        LET s == acts[i]  y == GMul(AM, s)
        IN CASE cfg.kind = "x" -> Zero(GMul(GT(s), GMul(AM, GMul(bel.P, GT(AM))))) /\ (Consistent(cfg.sys) => Zero(GMul(GT(s), Resid(bel))))
             [] cfg.kind = "noisy" -> TRUE
             [] OTHER -> Zero(GSub(GMul(bel.A.M, s), y)) /\ Zero(GSub(GMul(bel.H.M, y), s)) /\ Zero(GMul(bel.A.W, s)) /\ Zero(GMul(bel.H.W, y))
(* the belief does not depend on the order of the actions *)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == phase = "done" /\ cfg.policy # "cg" /\ Consistent(cfg.sys) =>
    LET o == Run(Prior, Reverse(acts))
    IN ~Good(o) \/ (IF IsX THEN o = bel ELSE Same(o.A.M, bel.A.M) /\ Same(o.H.M, bel.H.M) /\ Same(o.A.W, bel.A.W) /\ Same(o.H.W, bel.H.W))
SymStays == phase = "done" /\ cfg.kind = "sym" => IsSym(bel.A.M) /\ IsSym(bel.H.M) /\ IsSym(bel.A.W)
(* for solution-based solvers conjugate gradients has orthogonal residuals and conjugate actions *)
Conjugate == phase = "done" /\ cfg.policy = "cg" /\ cfg.kind = "x" =>
    LET P0 == Prior.P
    IN /\ \A i, j \in DOMAIN acts : i < j => Zero(GMul(GT(acts[i]), GMul(AM, GMul(P0, GMul(GT(AM), acts[j])))))
       /\ \A i, j \in DOMAIN hist : i < j => Zero(GMul(GT(hist[i].r), hist[j].r))
OnlyLastStops == \A i \in DOMAIN hist : hist[i].stop => i = Len(hist)
Steps == \A i \in DOMAIN hist : hist[i].k = i - 1
Emit == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, crit |-> CritOf(cfg.crit), acts |-> acts, hist |-> hist]))
=============================================================================
