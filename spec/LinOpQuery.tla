----------------------------- MODULE LinOpQuery -----------------------------
(* Histories of questions to, and declarations about, one linear operator.               *)
(* An operator is built by a program of LinOps; then any sequence of queries follows.    *)
(* The state is the matrix the operator denotes and what the user has declared about it: *)
(* the answer to a query is a function of the denotation alone, never of the history.    *)
EXTENDS LinOps
CONSTANTS MaxQ
VARIABLES cur,     \* the matrix denoted by the operator in hand
          hist,    \* questions asked, with the facts that determine their answer
          decl,    \* facts the user has declared about the operator in hand
          fin
qvars == <<vars, cur, hist, decl, fin>>

QInit == Init /\ cur = <<>> /\ hist = <<>> /\ decl = {} /\ fin = FALSE
Build == /\ ~done /\ Next /\ UNCHANGED <<cur, hist, decl, fin>>
Begin == /\ done /\ refused = <<>> /\ cur = <<>>
         /\ cur' = Top.m /\ UNCHANGED <<vars, hist, decl, fin>>

Exact(a) == a.r <= 4 /\ MaxAbs(a) < (IF a.r = 4 THEN 60 ELSE 500)
Facts(a) == [sym |-> IsSym(a), low |-> IsLower(a), up |-> IsUpper(a),
             pd |-> IF Exact(a) THEN IsPD(a) ELSE FALSE, sq |-> IsSquare(a),
             exact |-> Exact(a),
             tr |-> IF IsSquare(a) THEN Trace(a) ELSE 0,
             det |-> IF IsSquare(a) /\ Exact(a) THEN DetI(a.m) ELSE 0]
Queries == {"trace", "diag", "det", "logabsdet", "rank", "eigvals", "cond1", "cond2", "condinf", "condfro",
            "solvev", "solvem", "solvestack", "invapply", "invdense", "cholL", "cholU", "dense", "densenc",
            "flags", "apply", "symmetrize"}
Ask == /\ \E q \in Queries : hist' = Append(hist, [q |-> q, declared |-> decl])
       /\ UNCHANGED <<vars, cur, decl, fin>>
(* a true fact may be declared at any time *)
Declare == /\ \E f \in {"sym", "low", "up"} \cup (IF Exact(cur) THEN {"pd"} ELSE {}) :
                 /\ f \notin decl
                 /\ (f = "pd" /\ Facts(cur).pd) => "sym" \in decl   \* definiteness presupposes symmetry
                 /\ decl' = decl \cup {f}
                 /\ hist' = Append(hist, [q |-> "declare", fact |-> f, value |-> Facts(cur)[f]])
           /\ UNCHANGED <<vars, cur, fin>>
GoT == /\ cur' = MT(cur) /\ decl' = {} /\ hist' = Append(hist, [q |-> "goT"]) /\ UNCHANGED <<vars, fin>>
GoInv == /\ Invertible(cur) /\ Small(MInv(cur))
         /\ cur' = MInv(cur) /\ decl' = {} /\ hist' = Append(hist, [q |-> "goInv"]) /\ UNCHANGED <<vars, fin>>
GoNeg == /\ cur' = MNeg(cur) /\ decl' = {} /\ hist' = Append(hist, [q |-> "goNeg"]) /\ UNCHANGED <<vars, fin>>
Query == /\ cur # <<>> /\ Len(hist) < MaxQ /\ (Ask \/ Declare \/ GoT \/ GoInv \/ GoNeg)
End == /\ cur # <<>> /\ Len(hist) >= MaxQ /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<vars, cur, hist, decl>>
QNext == ~fin /\ (Build \/ Begin \/ Query \/ End)

(* a declaration never contradicts an earlier one about the same operator *)
NoContradiction == \A i, j \in 1..Len(hist) :
    (hist[i].q = "declare" /\ hist[j].q = "declare" /\ i < j
        /\ hist[i].fact = hist[j].fact
        /\ \A k \in i..j : hist[k].q \notin {"goT", "goInv", "goNeg"}) => hist[i].value = hist[j].value
(* facts are consistent with each other: the factorisation a query may rely on exists *)
FactsOK == cur # <<>> => LET f == Facts(cur) IN
              /\ f.pd => f.sym
              /\ (f.exact /\ f.pd) => f.det > 0
              /\ (f.sq /\ f.low /\ f.up) => f.sym
TransposeFacts == cur # <<>> => LET f == Facts(cur)  g == Facts(MT(cur)) IN
              /\ f.sym = g.sym /\ f.low = g.up /\ f.up = g.low /\ f.tr = g.tr /\ f.det = g.det
QEmit == fin => PrintT("@@" \o ToJson([e |-> Top.e, r |-> Top.m.r, c |-> Top.m.c, m |-> Top.m.m, d |-> Top.m.d,
                                       hist |-> hist]))
=============================================================================
