------------------------------- MODULE BqLoop -------------------------------
(* The Bayesian quadrature loop: initial data, stopping decision before every iteration,  *)
(* selection of the next nodes by the policy, belief update.  Nodes are points of "m3".   *)
EXTENDS BayesQuad
CONSTANTS Policies, Crits, MaxEv
VARIABLES last, its     \* mean before the last update (None if there was none), iterations
lvars == <<cfg, b, data, hist, phase, last, its>>
KN == "m3"
Tables == << <<0, 0, 0, 0, 0, 0, 0>>, <<1, -2, 3, 1, 0, 2, -1>>, <<2, 2, 2, 2, 2, 2, 2>>, <<4, 0, -1, 2, 3, 1, 1>> >>
Vdc == <<4, 2, 6, 1, 5, 3, 7>>
Cand == << {1, 4}, {2, 5, 7}, {3, 6}, {1, 2, 3}, {4, 5, 6, 7}, {1, 7} >>
(* stopping criteria as terms *)
CritOf(c) == CASE c = "nev" -> [op |-> "nev", n |-> 3]
               [] c = "var" -> [op |-> "var", n |-> 27, d |-> 4]
               [] c = "rel" -> [op |-> "rel", n |-> 1, d |-> 9]
               [] c = "opts" -> [op |-> "or", l |-> [op |-> "or", l |-> [op |-> "nev", n |-> 5], r |-> [op |-> "var", n |-> 8, d |-> 1]],
                                 r |-> [op |-> "rel", n |-> 1, d |-> 20]]
               [] c = "nev-rel" -> [op |-> "or", l |-> [op |-> "nev", n |-> 4], r |-> [op |-> "rel", n |-> 1, d |-> 7]]
               [] c = "and" -> [op |-> "and", l |-> [op |-> "nev", n |-> 2], r |-> [op |-> "var", n |-> 25, d |-> 4]]
               [] c = "and-rel" -> [op |-> "and", l |-> [op |-> "rel", n |-> 1, d |-> 3], r |-> [op |-> "nev", n |-> 3]]
               [] c = "demorgan" -> [op |-> "not", l |-> [op |-> "and", l |-> [op |-> "not", l |-> [op |-> "nev", n |-> 4]],
                                                         r |-> [op |-> "not", l |-> [op |-> "var", n |-> 27, d |-> 4]]]]
               [] c = "never-early" -> [op |-> "or", l |-> [op |-> "and", l |-> [op |-> "nev", n |-> 3], r |-> [op |-> "not", l |-> [op |-> "rel", n |-> 1, d |-> 5]]],
                                        r |-> [op |-> "nev", n |-> 6]]
(* decisions about numbers with a margin; a tie would not survive rounding *)
Ge(a, n, d) == a.m[1][1] * d >= n * a.d
Tie(a, n, d) == a.m[1][1] * d = n * a.d
MeanSmall(n, d, x, p) == Abs(GSub(x, p).m[1][1]) * x.d * d <= n * Abs(x.m[1][1]) * GSub(x, p).d
RECURSIVE Stops(_, _, _, _), Safe(_, _, _, _)
Stops(c, s, p, k) == CASE c.op = "nev" -> k >= c.n
                       [] c.op = "var" -> Ge(s.red, c.n, c.d)
                       [] c.op = "rel" -> IF IsNone(p) THEN FALSE ELSE MeanSmall(c.n, c.d, s.mI, p)
                       [] c.op = "and" -> Stops(c.l, s, p, k) /\ Stops(c.r, s, p, k)
                       [] c.op = "or" -> Stops(c.l, s, p, k) \/ Stops(c.r, s, p, k)
                       [] c.op = "not" -> ~Stops(c.l, s, p, k)
Safe(c, s, p, k) == CASE c.op = "nev" -> TRUE
                      [] c.op = "var" -> cfg.scale = "none" /\ ~Tie(s.red, c.n, c.d)
                      [] c.op = "rel" -> IF IsNone(p) THEN TRUE
                                         ELSE /\ (cfg.f # 1 => s.mI.m[1][1] # 0)
                                              /\ (GSub(s.mI, p).m[1][1] # 0 =>
                                                     Abs(GSub(s.mI, p).m[1][1]) * s.mI.d * c.d # c.n * Abs(s.mI.m[1][1]) * GSub(s.mI, p).d)
                      [] c.op = "not" -> Safe(c.l, s, p, k)
                      [] OTHER -> Safe(c.l, s, p, k) /\ Safe(c.r, s, p, k)
Small(s) == MaxAbs(s.mI) < 4000 /\ s.mI.d < 2000 /\ MaxAbs(s.red) < 20000 /\ s.red.d < 20000
InitSets == << <<>>, <<4>>, <<3, 6>>, <<7, 1, 4>> >>
Datum(f, j) == [j |-> j, y |-> Tables[f][j]]
LInit == \E po \in Policies, cr \in Crits, f \in 1..Len(Tables), bs \in 1..3, i0 \in 1..Len(InitSets), m \in Modes :
           /\ (po \in {"ivr", "us", "mi"} => bs = 1) /\ (f = 1 => m = "none") /\ (po = "none" => (cr = "nev" /\ i0 > 1 /\ bs = 1))
           /\ cfg = [kern |-> KN, jit |-> <<0, 1>>, scale |-> m, policy |-> po, crit |-> cr, f |-> f, batch |-> bs, init |-> InitSets[i0]]
           /\ data = [i \in 1..Len(InitSets[i0]) |-> Datum(f, InitSets[i0][i])]
           /\ b = ObserveAll(Prior(KN), [i \in 1..Len(InitSets[i0]) |-> Datum(f, InitSets[i0][i])], <<0, 1>>)
           /\ last = (IF InitSets[i0] = <<>> THEN None ELSE S1(0, 1))
           /\ its = 0 /\ phase = "check"
           /\ hist = <<>>
Seen == {data[i].j : i \in DOMAIN data}
Decide == /\ phase = "check" /\ Sound(b) /\ Small(b)
          /\ (cfg.policy # "none" => Safe(CritOf(cfg.crit), b, last, Len(data)))
          /\ LET stop == cfg.policy = "none" \/ Stops(CritOf(cfg.crit), b, last, Len(data))
             IN /\ hist' = Append(hist, [n |-> Len(data), it |-> its, stop |-> stop, b |-> b, cand |-> <<>>])
                /\ phase' = IF stop THEN "stopped" ELSE "select"
          /\ UNCHANGED <<cfg, b, data, last, its>>
Take(js) == /\ \A i \in DOMAIN js : js[i] \notin Seen
            /\ \A i, k \in DOMAIN js : i # k => js[i] # js[k]
            /\ Len(data) + Len(js) <= MaxEv
            /\ data' = data \o [i \in DOMAIN js |-> Datum(cfg.f, js[i])]
            /\ b' = ObserveAll(b, [i \in DOMAIN js |-> Datum(cfg.f, js[i])], cfg.jit)
            /\ last' = b.mI /\ its' = its + 1 /\ phase' = "check" /\ UNCHANGED cfg
(* the acquisition value of a candidate: variance reduction cI^2 / C, or variance C *)
Better(i, j) == IF cfg.policy = "us" THEN b.C.m[i][i] > b.C.m[j][j]
                ELSE b.cI.m[i][1] * b.cI.m[i][1] * b.C.m[j][j] > b.cI.m[j][1] * b.cI.m[j][1] * b.C.m[i][i]
SmallQ == MaxAbs(b.C) < 1000 /\ MaxAbs(b.cI) < 1000
Select == /\ phase = "select"
          /\ IF cfg.policy = "vdc" THEN /\ Len(data) + cfg.batch <= Len(Vdc)
                                        /\ Take([i \in 1..cfg.batch |-> Vdc[Len(data) + i]]) /\ UNCHANGED hist
             ELSE IF cfg.policy = "script"
                  THEN \E r \in 1..7 : /\ Take([i \in 1..cfg.batch |-> ((r + 3 * i) % 7) + 1]) /\ UNCHANGED hist
                  ELSE /\ SmallQ /\ (cfg.scale = "mle" /\ data # <<>> => b.q.m[1][1] # 0)   \* a zero scale leaves nothing to acquire
                       /\ \E s \in 1..Len(Cand) : \E j \in Cand[s] \ Seen :
                             /\ Cand[s] \cap Seen = {}
                             /\ \A k \in Cand[s] \ {j} : Better(j, k)
                             /\ Take(<<j>>)
                             /\ hist' = [hist EXCEPT ![Len(hist)].cand = <<s>>]
LFinish == phase = "stopped" /\ phase' = "done" /\ UNCHANGED <<cfg, b, data, hist, last, its>>
LNext == Decide \/ Select \/ LFinish
(* ---- the properties of the loop ---- *)
Counts == \A i \in DOMAIN hist : hist[i].it = i - 1 /\ (i > 1 => hist[i].n = hist[i - 1].n + cfg.batch)
OnlyLastStops == \A i \in DOMAIN hist : hist[i].stop => i = Len(hist)
InitialBelief == hist # <<>> => hist[1].n = Len(cfg.init)
LShrinks == \A i \in DOMAIN hist : i > 1 => Le(hist[i - 1].b.red, hist[i].b.red)
LEmit == phase = "done" => PrintT("@@" \o ToJson([cfg |-> cfg, crit |-> CritOf(cfg.crit), data |-> data, hist |-> hist]))
=============================================================================
