------------------------------- MODULE Gauss --------------------------------
(* Exact Gaussian inference on small rational matrices.  TLC's integers have 32 bits:   *)
(* an operation whose operands or result leave the safe range gives None, and None      *)
(* propagates; statements about None are vacuous and nothing is emitted for it.         *)
EXTENDS Mat
None == [r |-> 0, c |-> 0, d |-> 1, m |-> <<>>]
IsNone(a) == a.r = 0
LimN == 15000
Ok(a) == IsNone(a) \/ (MaxAbs(a) < LimN /\ a.d < LimN)
Chk(a) == IF Ok(a) THEN a ELSE None
GAdd(a, b) == IF IsNone(a) \/ IsNone(b) THEN None ELSE Chk(MAdd(a, b))
GSub(a, b) == IF IsNone(a) \/ IsNone(b) THEN None ELSE Chk(MSub(a, b))
GMul(a, b) == IF IsNone(a) \/ IsNone(b) THEN None ELSE Chk(MMul(a, b))
GT(a) == IF IsNone(a) THEN None ELSE MT(a)
GScale(n, d, a) == IF IsNone(a) THEN None ELSE Chk(MScale(n, d, a))
InvOk(a) == CASE a.r = 1 -> a.m[1][1] # 0
              [] a.r = 2 -> DetI(a.m) # 0
              [] a.r = 3 -> /\ MaxAbs(a) < 500 /\ a.d < 1000 /\ DetI(a.m) # 0
              [] a.r = 4 -> /\ MaxAbs(a) < 80 /\ a.d < 200 /\ DetI(a.m) # 0
              [] OTHER -> FALSE
GInv(a) == IF IsNone(a) \/ ~InvOk(a) THEN None ELSE Chk(MInv(a))

(* beliefs: [m |-> column, P |-> covariance] *)
Bel(m, P) == [m |-> m, P |-> P]
Known(b) == ~IsNone(b.m) /\ ~IsNone(b.P)
Push(b, A, s, Q) == Bel(GAdd(GMul(A, b.m), s), GAdd(GMul(A, GMul(b.P, GT(A))), Q))
Cross(b, A) == GMul(b.P, GT(A))
(* conditioning b on  H x + c + noise(R) = y *)
Gain(b, H, R) == GMul(Cross(b, H), GInv(GAdd(GMul(H, GMul(b.P, GT(H))), R)))
Cond(b, H, c, R, y) ==
    LET K == Gain(b, H, R)
    IN Bel(GAdd(b.m, GMul(K, GSub(y, GAdd(GMul(H, b.m), c)))),
           GSub(b.P, GMul(K, GMul(H, b.P))))
(* Rauch-Tung-Striebel: x given that the pushed-forward variable has belief nxt *)
Back(b, A, s, Q, nxt) ==
    LET f == Push(b, A, s, Q)
        G == GMul(Cross(b, A), GInv(f.P))
    IN Bel(GAdd(b.m, GMul(G, GSub(nxt.m, f.m))), GAdd(b.P, GMul(G, GMul(GSub(nxt.P, f.P), GT(G)))))

(* stacking *)
HCat(a, b) == LET F(i, j) == IF j <= a.c THEN a.m[i][j] * b.d ELSE b.m[i][j - a.c] * a.d
              IN IF IsNone(a) \/ IsNone(b) THEN None ELSE Chk(Norm(Mk(a.r, a.c + b.c, F, a.d * b.d)))
VCat(a, b) == GT(HCat(GT(a), GT(b)))
Blk2(a, b) == IF IsNone(a) \/ IsNone(b) THEN None ELSE Chk(MBlk(a, b))
SubM(a, r0, r1, c0, c1) ==
    IF IsNone(a) THEN None
    ELSE LET F(i, j) == a.m[r0 + i - 1][c0 + j - 1] IN Norm(Mk(r1 - r0 + 1, c1 - c0 + 1, F, a.d))
PSD2(P) == /\ IsSym(P) /\ \A i \in 1..P.r : P.m[i][i] >= 0
           /\ \A i, j \in 1..P.r : P.m[i][j] * P.m[i][j] <= P.m[i][i] * P.m[j][j]
=============================================================================
