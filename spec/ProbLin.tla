------------------------------- MODULE ProbLin -------------------------------
(* problinsolve: the symmetric matrix-based probabilistic linear solver.  The belief over *)
(* A and its inverse is a symmetric Gaussian matrix; search directions are  -H r  with the *)
(* current mean H of the inverse and residual r = A x - b; a step minimises the energy     *)
(* along the direction.  Several right-hand sides are solved one after the other with the  *)
(* belief handed on.  Directions are kept as primitive integer vectors: nothing depends on *)
(* their scale.                                                                            *)
EXTENDS LinSolve
CONSTANTS PSystems, PPriors, Tols, Iters
VARIABLES st, b2, outs
pvars == <<cfg, bel, acts, hist, phase, st, b2, outs>>
PMats == << << <<2>> >>, << <<2, 1>>, <<1, 3>> >>, << <<2, 1>>, <<1, 1>> >>, << <<1, 0>>, <<0, 2>> >>, << <<2, 0>>, <<0, 2>> >>, << <<3, -1>>, <<-1, 1>> >>,
            << <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 1>> >>, << <<2, 1, 0>>, <<1, 1, 0>>, <<0, 0, 1>> >> >>
PRhs(n) == CASE n = 1 -> {<< <<3>> >>, << <<1>>, <<-2>> >>, << <<0>> >>}
             [] n = 2 -> {<< <<1, 2>> >>, << <<1, 0>> >>, << <<1, -1>> >>, << <<0, 0>> >>, << <<1, 0>>, <<0, 1>> >>, << <<1, 1>>, <<1, -2>> >>, << <<0, 1>>, <<0, 0>> >>}
             [] n = 3 -> {<< <<1, 0, 1>> >>, << <<1, 1, 1>> >>, << <<0, 1, 0>>, <<1, 0, 1>> >>}
PSpd(n) == CASE n = 1 -> << <<3>> >> [] n = 2 -> << <<2, 1>>, <<1, 1>> >> [] n = 3 -> << <<1, 0, 0>>, <<0, 2, 1>>, <<0, 1, 1>> >>
PSpd2(n) == CASE n = 1 -> << <<2>> >> [] n = 2 -> << <<1, 0>>, <<0, 2>> >> [] n = 3 -> << <<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
X0s(n) == CASE n = 1 -> {<<1>>, <<-2>>} [] n = 2 -> {<<1, 1>>, <<2, -1>>, <<0, 0>>, <<-1, -1>>} [] n = 3 -> {<<1, 0, 0>>, <<0, -1, 0>>}
PA == FromRows(PMats[cfg.sys])
N == Len(cfg.bs[1])
Bj(j) == Col(cfg.bs[j])
NB(j) == SumSeq([i \in 1..N |-> cfg.bs[j][i] * cfg.bs[j][i]])
Dot(u, v) == GMul(GT(u), v)
(* the prior means constructed from an initial guess: H b = x for a guess x with b'x > 0 *)
Guess(x, b) == LET bx == Sc(Dot(b, x))
                   A1 == GMul(PA, b)
               IN IF bx < 0 THEN GScale(-1, 1, x)
                  ELSE IF bx = 0 THEN GScale(Sc(Dot(b, b)), Sc(Dot(b, A1)), b) ELSE x
GuessH(x0, b) == LET x == Guess(x0, b)
                     bx == Dot(b, x)
                     bb == Dot(b, b)
                     a == GScale(bx.m[1][1] * bb.d, 2 * bx.d * bb.m[1][1], S1(1, 1))
                     v == GSub(x, GScale(Sc(a), a.d, b))
                 IN GAdd(GScale(Sc(a), a.d, Ident(N)), GScale(2 * bx.d, Sc(bx), GMul(v, GT(v))))
(* prior: M, V for A and H, W for the inverse; x the first iterate *)
PPrior == LET b == Bj(1)
              I == Ident(N)
              S == FromRows(PSpd(N))
              S2 == FromRows(PSpd2(N))
              Hg == GuessH(Col(cfg.x0), b)
          IN CASE cfg.prior = "none" -> [H |-> I, W |-> I, M |-> I, V |-> PA, x |-> b]
               [] cfg.prior = "x0" -> IF NB(1) = 0 THEN [H |-> I, W |-> I, M |-> I, V |-> PA, x |-> GScale(0, 1, b)]
                                      ELSE [H |-> Hg, W |-> Hg, M |-> GInv(Hg), V |-> PA, x |-> Col(cfg.x0)]
               [] cfg.prior = "Ainv0" -> [H |-> S, W |-> S, M |-> GInv(S), V |-> PA, x |-> GMul(S, b)]
               [] cfg.prior = "Ainv0-rv" -> [H |-> S, W |-> S2, M |-> GInv(S), V |-> PA, x |-> GMul(S, b)]
               [] cfg.prior = "A0-rv" -> [H |-> GInv(S), W |-> GInv(S), M |-> S, V |-> S2, x |-> GMul(GInv(S), b)]
               [] cfg.prior = "both-rv" -> [H |-> S, W |-> S2, M |-> S2, V |-> S, x |-> GMul(S, b)]
SolCov(s, b) == LET Wb == GMul(s.W, b)
                    q == Dot(b, Wb)
                IN IF IsNone(q) THEN None ELSE GScale(1, 2, GAdd(GScale(Sc(q), q.d, s.W), GMul(Wb, GT(Wb))))
PGood(s) == ~IsNone(s.H) /\ ~IsNone(s.W) /\ ~IsNone(s.M) /\ ~IsNone(s.V) /\ ~IsNone(s.x) /\ ~IsNone(s.r)
Prim(v) == LET g == GcdAll(v.m, 0)
           IN IF g = 0 THEN v ELSE [v EXCEPT !.d = 1, !.m = [i \in 1..v.r |-> <<v.m[i][1] \div g>>]]
Fit(v) == IF IsNone(v) THEN v ELSE IF MaxAbs(v) < 200 THEN v ELSE None
TolOf(t) == CASE t = "tight" -> [atol |-> <<0, 1>>, rtol |-> <<0, 1>>]       \* below every nonzero quantity of the model
              [] t = "loose" -> [atol |-> <<1, 2>>, rtol |-> <<0, 1>>]
              [] t = "rel" -> [atol |-> <<0, 1>>, rtol |-> <<2, 5>>]
              [] t = "huge" -> [atol |-> <<7, 1>>, rtol |-> <<0, 1>>]
PInit == \E i \in PSystems, p \in PPriors, t \in Tols, mx \in Iters :
           \E bs \in PRhs(Len(PMats[i])) : \E x0 \in (IF p = "x0" THEN X0s(Len(PMats[i])) ELSE {<<>>}) :
             /\ cfg = [sys |-> i, A |-> PMats[i], bs |-> bs, prior |-> p, x0 |-> x0, tol |-> TolOf(t), tname |-> t, maxiter |-> mx]
             /\ b2 = 1 /\ st = None /\ outs = <<>> /\ hist = <<>> /\ acts = <<>> /\ bel = None /\ phase = "start"
PStart == /\ phase = "start"
          /\ LET p == PPrior IN st' = [H |-> p.H, W |-> p.W, M |-> p.M, V |-> p.V, x |-> p.x, r |-> GSub(GMul(PA, p.x), Bj(1)), k |-> 0]
          /\ phase' = "check" /\ UNCHANGED <<cfg, b2, outs, hist, acts, bel>>
(* which criterion holds first *)
RLe(t, w) == Le2(st.r, t[1], t[2], w)
CLe(c, t, w) == TrLe(c, t[1], t[2], w)
PSafe(c) == /\ SqOk(st.r) /\ ~IsNone(c)
            /\ Fits2(st.r, cfg.tol.atol[1] + 1, cfg.tol.atol[2], 1) /\ Fits2(st.r, cfg.tol.rtol[1] + 1, cfg.tol.rtol[2], NB(b2) + 1)
            /\ TrFits(c, cfg.tol.atol[1] + 1, cfg.tol.atol[2], 1) /\ TrFits(c, cfg.tol.rtol[1] + 1, cfg.tol.rtol[2], NB(b2) + 1)
            /\ (cfg.tol.atol[1] # 0 => ~Tie2(st.r, cfg.tol.atol[1], cfg.tol.atol[2], 1) /\ ~TrTie(c, cfg.tol.atol[1], cfg.tol.atol[2], 1))
            /\ (cfg.tol.rtol[1] # 0 /\ NB(b2) # 0 => ~Tie2(st.r, cfg.tol.rtol[1], cfg.tol.rtol[2], NB(b2)) /\ ~TrTie(c, cfg.tol.rtol[1], cfg.tol.rtol[2], NB(b2)))
Crit(c) == IF st.k >= cfg.maxiter THEN "maxiter"
           ELSE IF RLe(cfg.tol.atol, 1) THEN "resid_atol" ELSE IF RLe(cfg.tol.rtol, NB(b2)) THEN "resid_rtol"
           ELSE IF CLe(c, cfg.tol.atol, 1) THEN "tracecov_atol" ELSE IF CLe(c, cfg.tol.rtol, NB(b2)) THEN "tracecov_rtol" ELSE ""
PDecide == /\ phase = "check" /\ PGood(st)
           /\ LET C == SolCov(st, Bj(b2))
                  c == Tr1(C)
              IN /\ ~IsNone(C)
                 /\ IF ~PSafe(c) THEN FALSE
                    ELSE LET w == Crit(c)
                         IN /\ hist' = Append(hist, [j |-> b2, k |-> st.k, s |-> st, cov |-> C])
                            /\ IF w = "" THEN phase' = "act" /\ UNCHANGED <<outs, b2, st>>
                               ELSE /\ outs' = Append(outs, [crit |-> w, iter |-> st.k, r |-> st.r, tr |-> c])
                                    /\ IF b2 = Len(cfg.bs) THEN phase' = "stopped" /\ UNCHANGED <<b2, st>>
                                       ELSE LET x == GMul(st.H, Bj(b2 + 1))
                                            IN /\ b2' = b2 + 1 /\ phase' = "check"
                                               /\ st' = [st EXCEPT !.x = x, !.r = GSub(GMul(PA, x), Bj(b2 + 1)), !.k = 0]
           /\ UNCHANGED <<cfg, acts, bel>>
NonZero(a) == IF IsNone(a) THEN FALSE ELSE Sc(a) # 0
PStep == /\ phase = "act"
         /\ LET v == GScale(-1, 1, GMul(st.H, st.r))
                s == IF IsNone(v) THEN None ELSE Fit(Prim(v))
                y == GMul(PA, s)
                sy == GMul(GT(s), y)
                dx == GMul(s, GMul(GMul(GT(s), st.r), GInv(sy)))
                nx == GSub(st.x, dx)
                m == MStep(st.M, st.V, s, y, TRUE)
                h == MStep(st.H, st.W, y, s, TRUE)
            IN /\ ~IsNone(s) /\ ~IsNone(sy) /\ ~IsNone(nx)
               /\ NonZero(Dot(y, GMul(st.W, y))) /\ NonZero(Dot(s, GMul(st.V, s)))
               /\ st' = [H |-> h.M, W |-> h.W, M |-> m.M, V |-> m.W, x |-> nx, r |-> GSub(GMul(PA, nx), Bj(b2)), k |-> st.k + 1]
               /\ acts' = Append(acts, s)
               /\ phase' = "check" /\ UNCHANGED <<cfg, b2, outs, hist, bel>>
PFinish == phase = "stopped" /\ phase' = "done" /\ UNCHANGED <<cfg, bel, acts, hist, st, b2, outs>>
PNext == PStart \/ PDecide \/ PStep \/ PFinish
(* what was observed along the directions of the current belief stays true *)
PConsistent == phase = "done" => \A i \in DOMAIN acts :
                  LET y == GMul(PA, acts[i]) IN Zero(GSub(GMul(st.M, acts[i]), y)) /\ Zero(GSub(GMul(st.H, y), acts[i]))
PSym == phase = "done" => IsSym(st.H) /\ IsSym(st.M)
(* at most n steps per right-hand side, and each right-hand side inherits all directions *)
PTerminates == \A i \in DOMAIN hist : hist[i].k <= N
PSolved == phase = "done" => \A i \in DOMAIN outs : outs[i].crit = "resid_atol" /\ cfg.tname = "tight" => Zero(outs[i].r)
PEmit == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, acts |-> acts, hist |-> hist, outs |-> outs]))
=============================================================================
