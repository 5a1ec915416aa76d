------------------------------- MODULE LinOps -------------------------------
(* Programs that build linear operators, with the matrix each one denotes.            *)
(* State: a stack of operators (expression tree + exact rational matrix).  Every       *)
(* constructor and every arithmetic operation of the library is one action; an         *)
(* operation on incompatible shapes is an action that is refused and leaves no result. *)
EXTENDS Mat, TLC, Json
CONSTANTS MaxLeaves, MaxUn, MaxDim, Profile

(* ------------------------------- leaves ------------------------------------ *)
A22 == <<<<1, 2>>, <<3, 5>>>>
B22 == <<<<2, -1>>, <<0, 1>>>>
S22 == <<<<2, 1>>, <<1, 2>>>>
L22 == <<<<1, 0>>, <<2, 1>>>>
Z22 == <<<<1, 2>>, <<2, 4>>>>
A23 == <<<<1, -2, 0>>, <<3, 1, 2>>>>
A32 == <<<<2, 1>>, <<0, -1>>, <<1, 3>>>>
A12 == <<<<3, -1>>>>
A21 == <<<<2>>, <<5>>>>
A11 == <<<<3>>>>
A13 == <<<<1, 0, -2>>>>
A31 == <<<<0>>, <<2>>, <<1>>>>
A33 == <<<<1, 2, 0>>, <<0, 1, -1>>, <<2, 0, 3>>>>
S33 == <<<<2, 1, 0>>, <<1, 3, 1>>, <<0, 1, 2>>>>
A44 == <<<<1, 2, 0, 1>>, <<0, 1, 3, 0>>, <<1, 0, 1, 2>>, <<0, 1, 0, 1>>>>
A42 == <<<<1, 0>>, <<2, -1>>, <<0, 3>>, <<1, 1>>>>
A24 == <<<<0, 1, 2, -1>>, <<1, 0, 0, 3>>>>

MatL(a, dt, sp) == [cls |-> "Matrix", a |-> a, dt |-> dt, sp |-> sp]
ScaL(s, d, n, dt) == [cls |-> "ScalarScaling", s |-> s, d |-> d, n |-> n, dt |-> dt]
VecL(v, d, dt) == [cls |-> "VectorScaling", v |-> v, d |-> d, dt |-> dt]
IdL(n, dt) == [cls |-> "Identity", n |-> n, dt |-> dt]
ZeroL(r, c) == [cls |-> "Zero", r |-> r, c |-> c]
SelL(idx, n) == [cls |-> "Selection", idx |-> idx, n |-> n]
EmbL(take, put, r, c) == [cls |-> "Embedding", take |-> take, put |-> put, r |-> r, c |-> c]
SymL(n) == [cls |-> "Symmetrize", n |-> n]
LamL(a, how) == [cls |-> "Lambda", a |-> a, how |-> how]

CoreLeaves == {
    MatL(A22, "f", FALSE), MatL(S22, "i", FALSE), MatL(A23, "f", FALSE), MatL(A32, "i", FALSE),
    MatL(A12, "f", FALSE), MatL(A21, "f", FALSE), MatL(A11, "f", FALSE), MatL(A44, "f", FALSE),
    MatL(A42, "f", FALSE), MatL(A24, "i", FALSE), MatL(B22, "f", TRUE),
    IdL(2, "f"), IdL(4, "f"), ZeroL(2, 2), ZeroL(2, 4), ZeroL(4, 2),
    ScaL(2, 1, 2, "i"), ScaL(-3, 2, 4, "f"), ScaL(1, 1, 2, "f"), ScaL(0, 1, 2, "f"), ScaL(3, 1, 4, "f"),
    VecL(<<1, 3>>, 2, "f"), VecL(<<2, 5>>, 1, "i"), VecL(<<2, 2>>, 1, "f"), VecL(<<1, -2, 0, 3>>, 1, "f"),
    SelL(<<1, 0>>, 4), SelL(<<3, 1>>, 4), SelL(<<1>>, 2), SelL(<<0, 1>>, 2),
    EmbL(<<0, 1>>, <<3, 1>>, 4, 2), EmbL(<<0>>, <<1>>, 2, 1), EmbL(<<1, 0>>, <<0, 2>>, 4, 2),
    EmbL(<<0, 1>>, <<1, 0>>, 2, 2),
    SymL(2), SymL(1), LamL(A22, "matvec"), LamL(A24, "scipy"), LamL(A44, "matmat")}
MoreLeaves == CoreLeaves \cup {
    MatL(L22, "f", FALSE), MatL(Z22, "f", FALSE), MatL(A13, "f", FALSE), MatL(A31, "i", FALSE),
    MatL(A33, "f", FALSE), MatL(S33, "f", FALSE), MatL(A33, "f", TRUE), MatL(A44, "i", TRUE),
    MatL(A24, "f", TRUE), IdL(1, "f"), IdL(3, "i"), IdL(2, "i"), ZeroL(1, 2), ZeroL(3, 3), ZeroL(1, 1),
    ScaL(5, 1, 1, "f"), ScaL(-2, 1, 3, "i"), ScaL(1, 2, 3, "f"), VecL(<<2>>, 1, "f"),
    VecL(<<1, 1, 1>>, 1, "f"), VecL(<<0, 0>>, 1, "f"), VecL(<<4, 1, 2>>, 1, "i"),
    SelL(<<2>>, 3), SelL(<<0, 0>>, 2), SelL(<<2, 0, 1>>, 3), SelL(<<1, 1>>, 4), EmbL(<<0, 1>>, <<2, 0>>, 3, 2),
    EmbL(<<1, 0>>, <<0, 1>>, 2, 2), EmbL(<<1>>, <<2>>, 3, 2), LamL(A23, "matvec"), LamL(S22, "matmat")}
Leaves == IF Profile = "core" THEN CoreLeaves ELSE MoreLeaves

Den(l) == CASE l.cls = "Matrix" -> FromRows(l.a)
            [] l.cls = "Lambda" -> FromRows(l.a)
            [] l.cls = "ScalarScaling" -> Norm(DiagM([i \in 1..l.n |-> l.s], l.d))
            [] l.cls = "VectorScaling" -> Norm(DiagM(l.v, l.d))
            [] l.cls = "Identity" -> Ident(l.n)
            [] l.cls = "Zero" -> ZeroM(l.r, l.c)
            [] l.cls = "Selection" -> MSelect(l.idx, l.n)
            [] l.cls = "Embedding" -> MEmbed(l.take, l.put, l.r, l.c)
            [] l.cls = "Symmetrize" -> Norm(MSymmetrizer(l.n))

(* ------------------------------- programs ---------------------------------- *)
VARIABLES stack,    \* operators built so far, top last: [e |-> expression, m |-> Mat]
          nl, nu,   \* leaves and unary operations used
          refused,  \* the last operation must be refused by the implementation
          done
vars == <<stack, nl, nu, refused, done>>
Init == stack = <<>> /\ nl = 0 /\ nu = 0 /\ refused = <<>> /\ done = FALSE

Top == stack[Len(stack)]
Pop(k) == SubSeq(stack, 1, Len(stack) - k)
Small(m) == m.r <= MaxDim /\ m.c <= MaxDim /\ MaxAbs(m) < 2000 /\ m.d < 2000

Push == /\ nl < MaxLeaves /\ refused = <<>>
        /\ Len(stack) < 2
        /\ \E l \in Leaves :
              stack' = Append(stack, [e |-> [op |-> "leaf", l |-> l], m |-> Den(l)])
        /\ nl' = nl + 1 /\ UNCHANGED <<nu, refused, done>>

Scalars == {<<-1, 1>>, <<2, 1>>, <<1, 2>>, <<4, 1>>} \cup IF Profile = "core" THEN {} ELSE {<<0, 1>>, <<1, 1>>, <<9, 4>>}
Un(res, op, arg) == /\ Small(res)
                    /\ stack' = Append(Pop(1), [e |-> [op |-> op, arg |-> arg, x |-> Top.e], m |-> res])
                    /\ nu' = nu + 1 /\ UNCHANGED <<nl, refused, done>>
Transpose == Un(MT(Top.m), "T", 0)
Negate == Un(MNeg(Top.m), "neg", 0)
LScale == \E s \in Scalars : Un(MScale(s[1], s[2], Top.m), "smul", s)
RScale == \E s \in Scalars : Un(MScale(s[1], s[2], Top.m), "muls", s)
AddScalar == /\ IsSquare(Top.m)
             /\ \E s \in {<<2, 1>>}, o \in {"adds", "sadd", "subs", "ssub"} :
                  LET I == MScale(s[1], s[2], Ident(Top.m.r))
                  IN Un(CASE o \in {"adds", "sadd"} -> MAdd(Top.m, I)
                          [] o = "subs" -> MSub(Top.m, I)
                          [] o = "ssub" -> MSub(I, Top.m), o, s)
Invertible(a) ==   \* within the bounds where the 32-bit arithmetic of the checker is exact
    /\ IsSquare(a) /\ a.r <= 4
    /\ MaxAbs(a) < (IF a.r = 4 THEN 60 ELSE 500)
    /\ DetI(a.m) # 0
Invert == /\ Invertible(Top.m) /\ Un(MInv(Top.m), "inv", 0)
Cast == Un(Top.m, "astype", 0)
IdKron == \E k \in {1, 2} : Un(MKron(Ident(k), Top.m), "idkron", k)
SymKron1 == /\ IsSquare(Top.m) /\ Un(MKron(Top.m, Top.m), "symkron1", 0)
Unary == /\ Len(stack) >= 1 /\ nu < MaxUn /\ refused = <<>>
         /\ Transpose \/ Negate \/ LScale \/ RScale \/ AddScalar \/ Invert \/ Cast \/ IdKron \/ SymKron1

Lft == stack[Len(stack) - 1]
Bin(res, op) == /\ Small(res)
                /\ stack' = Append(Pop(2), [e |-> [op |-> op, x |-> Lft.e, y |-> Top.e], m |-> res])
                /\ UNCHANGED <<nl, nu, refused, done>>
SameShape == Lft.m.r = Top.m.r /\ Lft.m.c = Top.m.c
Inner == Lft.m.c = Top.m.r
Add == \E o \in {"add", "addarr", "arradd"} : SameShape /\ Bin(MAdd(Lft.m, Top.m), o)
Sub == \E o \in {"sub", "subarr", "arrsub"} : SameShape /\ Bin(MSub(Lft.m, Top.m), o)
Mul == \E o \in {"mat", "mateager"} : Inner /\ Bin(MMul(Lft.m, Top.m), o)
Kron == Lft.m.r * Top.m.r <= MaxDim /\ Lft.m.c * Top.m.c <= MaxDim /\ Bin(MKron(Lft.m, Top.m), "kron")
Blk == Lft.m.r + Top.m.r <= MaxDim /\ Lft.m.c + Top.m.c <= MaxDim /\ Bin(MBlk(Lft.m, Top.m), "blk")
SymKron2 == /\ SameShape /\ IsSquare(Top.m) /\ Top.m.r * Top.m.r <= MaxDim
            /\ Bin(MScale(1, 2, MAdd(MKron(Lft.m, Top.m), MKron(Top.m, Lft.m))), "symkron2")
(* selecting what has just been embedded is defined as the identity whatever the ambient dimension *)
SelEmb == /\ Lft.m.d = 1 /\ Top.m.d = 1 /\ Lft.m.r = Top.m.c
          /\ \A i \in 1..Lft.m.r : \E p \in 1..(IF Lft.m.c < Top.m.r THEN Lft.m.c ELSE Top.m.r) :
                 /\ \A j \in 1..Lft.m.c : Lft.m.m[i][j] = IF j = p THEN 1 ELSE 0
                 /\ \A j \in 1..Top.m.r : Top.m.m[j][i] = IF j = p THEN 1 ELSE 0
Refuse(op) == /\ refused' = <<op>> /\ UNCHANGED <<stack, nl, nu, done>>
BadShape == \/ ~SameShape /\ \E o \in {"add", "sub"} : Refuse(o)
            \/ ~Inner /\ ~SelEmb /\ \E o \in {"mat", "mateager"} : Refuse(o)
            \/ (~SameShape \/ ~IsSquare(Top.m)) /\ Refuse("symkron2")
Binary == /\ Len(stack) >= 2 /\ refused = <<>>
          /\ Add \/ Sub \/ Mul \/ Kron \/ Blk \/ SymKron2 \/ BadShape
Finish == /\ ~done
          /\ \/ Len(stack) = 1 /\ nl = MaxLeaves
             \/ refused # <<>>
          /\ done' = TRUE /\ UNCHANGED <<stack, nl, nu, refused>>
(* structured operands that may share a factor: (a o1 b) o (c o2 d) *)
C22 == <<<<1, 0>>, <<3, 1>>>>
(* equal, nearly equal (some entries agree) and different factors of one representation *)
PairFams == {{MatL(A22, "f", FALSE), MatL(C22, "f", FALSE)}, {ScaL(2, 1, 2, "f"), ScaL(3, 1, 2, "f")},
             {VecL(<<2, 5>>, 1, "f"), VecL(<<2, 3>>, 1, "f")}, {MatL(B22, "f", FALSE), ScaL(2, 1, 2, "f")}}
Mixed == {MatL(B22, "f", FALSE), ScaL(2, 1, 2, "f")}
Inner2(o, a, b) == CASE o = "kron" -> MKron(a, b)
                    [] o = "blk" -> MBlk(a, b)
                    [] o = "symkron2" -> MScale(1, 2, MAdd(MKron(a, b), MKron(b, a)))
Nested(o, a, b) == [e |-> [op |-> o, x |-> [op |-> "leaf", l |-> a], y |-> [op |-> "leaf", l |-> b]],
                    m |-> Inner2(o, Den(a), Den(b))]
IdKrons == {[e |-> [op |-> "idkron", arg |-> k, x |-> [op |-> "leaf", l |-> l]], m |-> MKron(Ident(k), Den(l))] :
               <<k, l>> \in {<<1, MatL(A44, "f", FALSE)>>, <<2, MatL(A22, "f", FALSE)>>,
                            <<2, MatL(S22, "i", FALSE)>>, <<4, MatL(A11, "f", FALSE)>>}}
Identities == IdKrons \cup {Nested("kron", MatL(A22, "f", FALSE), MatL(B22, "f", FALSE)),
                           Nested("blk", MatL(A22, "f", FALSE), MatL(B22, "f", FALSE))}
PairPush == /\ Profile = "pair" /\ stack = <<>> /\ ~done
            /\ \/ \E f, g \in PairFams, o \in {"kron", "blk", "symkron2"} : \E a, c \in f, b, d \in g :
                    stack' = <<Nested(o, a, b), Nested(o, c, d)>>
               \/ \E a, b, c, d \in Mixed, o1, o2 \in {"kron", "blk", "symkron2"} :
                    stack' = <<Nested(o1, a, b), Nested(o2, c, d)>>
               \/ \E x, y \in Identities : stack' = <<x, y>>
            /\ nl' = MaxLeaves /\ UNCHANGED <<nu, refused, done>>
PairOp == /\ Profile = "pair" /\ Len(stack) = 2 /\ ~done
          /\ \/ \E o \in {"add"} : Bin(MAdd(Lft.m, Top.m), o)
             \/ \E o \in {"sub"} : Bin(MSub(Lft.m, Top.m), o)
             \/ Bin(MMul(Lft.m, Top.m), "mat")
Next == IF Profile = "pair" THEN PairPush \/ PairOp \/ Finish
        ELSE ~done /\ (Push \/ Unary \/ Binary \/ Finish)

(* ---- laws of the denotation: the specification's own algebra is consistent ---- *)
WellFormed == \A i \in 1..Len(stack) :
    LET a == stack[i].m IN /\ a.d > 0 /\ a.r = Len(a.m) /\ \A k \in 1..a.r : Len(a.m[k]) = a.c
                           /\ Norm(a) = a
InvolutionT == \A i \in 1..Len(stack) : MT(MT(stack[i].m)) = stack[i].m
InverseLaw == \A i \in 1..Len(stack) :
    LET a == stack[i].m IN (IsSquare(a) /\ a.r <= 3 /\ DetI(a.m) # 0 /\ MaxAbs(a) < 60 /\ a.d < 60)
                             => MMul(a, MInv(a)) = Ident(a.r)
EmitInv == done => PrintT("@@" \o ToJson(
    IF refused # <<>> THEN [x |-> Lft.e, y |-> Top.e, refused |-> refused[1]]
    ELSE [e |-> Top.e, r |-> Top.m.r, c |-> Top.m.c, m |-> Top.m.m, d |-> Top.m.d]))
=============================================================================
