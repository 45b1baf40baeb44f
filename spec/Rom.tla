-------------------------------- MODULE Rom --------------------------------
(***************************************************************************)
(* Reduced-order models: the composition                                   *)
(*    encode = compress o transform o lift,                                *)
(*    decode = unlift o inverse_transform o decompress,                    *)
(* and how training data flow through it.  Every stage may be absent.      *)
(* A trained transformer is an affine map (Tf.tla); a basis is a matrix V  *)
(* with compress q |-> V'q and decompress c |-> V c.                       *)
(***************************************************************************)
EXTENDS Tf, Fd

(* lifters: none; q |-> (q, q^2); q |-> (q^3, q)                            *)
NBlocks(l) == IF l = "none" THEN 1 ELSE 2
MapM(f(_), X) == TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |-> f(X[i][j])]])
Map2(f(_, _), X, D) == TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |-> f(X[i][j], D[i][j])]])
Lift(l, X) == CASE l = "none" -> X
   [] l = "quad" -> X \o MapM(LAMBDA x : RMul(x, x), X)
   [] l = "cube" -> MapM(LAMBDA x : RMul(x, RMul(x, x)), X) \o X
LiftD(l, X, D) == CASE l = "none" -> D
   [] l = "quad" -> D \o Map2(LAMBDA x, d : RMul(I(2), RMul(x, d)), X, D)
   [] l = "cube" -> Map2(LAMBDA x, d : RMul(I(3), RMul(RMul(x, x), d)), X, D) \o D
(* unlifting keeps the rows of the original variable                        *)
Unlift(l, Y) == CASE l = "none" -> Y
   [] l = "quad" -> TLCEval(SubSeq(Y, 1, Len(Y) \div 2))
   [] l = "cube" -> TLCEval(SubSeq(Y, Len(Y) \div 2 + 1, Len(Y)))

(* A user's basis that learns from its training data Y (n rows): every       *)
(* column depends on all columns of Y and on their order                     *)
LearnV(Y, r) == LET e == Rat(1, 1009) IN
   TLCEval([i \in 1..Len(Y) |-> [c \in 1..r |->
      IF c = 1 THEN I(1 + Cardinality({j \in 1..Len(Y[i]) : RLt(RAdd(Y[i][1], e), Y[i][j])}))
      ELSE I((IF i % 2 = 0 THEN 1 ELSE -1) * (1 + Cardinality({j \in 1..Len(Y[i]) : j % 2 = c % 2 /\ RLt(e, Y[i][j])})))]])
BlockDiag(Vs) == LET n == ISum([v \in 1..Len(Vs) |-> Len(Vs[v])])  r == ISum([v \in 1..Len(Vs) |-> NCols(Vs[v])])
                     ro(v) == ISum([w \in 1..(v - 1) |-> Len(Vs[w])])
                     co(v) == ISum([w \in 1..(v - 1) |-> NCols(Vs[w])])
                     at(i, j) == LET v == CHOOSE v \in 1..Len(Vs) : i > ro(v) /\ i <= ro(v) + Len(Vs[v]) IN
                                 IF j > co(v) /\ j <= co(v) + NCols(Vs[v]) THEN Vs[v][i - ro(v)][j - co(v)] ELSE R0
                 IN TLCEval([i \in 1..n |-> [j \in 1..r |-> at(i, j)]])
(* b: [k |-> kind, n, r, s]; the basis matrix after training on Y            *)
TrainV(b, Y) == CASE b.k \in {"none", "pod"} -> ToR(IEye(Len(Y)))
   [] b.k = "lin" -> ToR(RandMat(b.s, Len(Y), b.r, -2, 2))
   [] b.k = "learn" -> LearnV(Y, b.r)
   [] b.k = "multi" -> LET h == Len(Y) \div 2 IN
        BlockDiag(<<LearnV(SubSeq(Y, 1, h), 1), LearnV(SubSeq(Y, h + 1, Len(Y)), 1)>>)

(*------------------------ encoding and decoding --------------------------*)
(* R: [l |-> lifter, ab |-> trained transformer, V |-> basis matrix]         *)
Enc(R, X) == RMatMul(T(R.V), ApplyAB(R.ab, Lift(R.l, X)))
EncD(R, X, D) == RMatMul(T(R.V), DdtAB(R.ab, LiftD(R.l, X, D)))
Dec(R, C) == Unlift(R.l, InvAB(R.ab, RMatMul(R.V, C)))
DecAt(R, C, rows) == Unlift(R.l, InvAB(At(R.ab, rows), Rows(RMatMul(R.V, C), rows)))

(*------------------------------- training --------------------------------*)
(* data: sequence of trajectories [Q, Z (<<>> when not given), U (or <<>>)]  *)
(* result: the trained stages and the regression data of each trajectory     *)
TrainStages(c, old, data, ft, fb) ==
   LET L == TLCEval([i \in 1..Len(data) |-> Lift(c.l, data[i].Q)])
       ab == IF ft THEN Learn(c.tf, HCatAll(L)) ELSE old.ab
   IN IF BadV(ab.a) \/ BadV(ab.b) THEN [l |-> c.l, ab |-> ab, V |-> <<>>, ok |-> FALSE] ELSE
   LET Y == ApplyAB(ab, HCatAll(L))
       V == IF fb THEN TrainV(c.b, Y) ELSE old.V
   IN [l |-> c.l, ab |-> ab, V |-> V, ok |-> ~BadM(Y) /\ ~BadM(V), Y |-> Y]
Regress(c, R, data) ==
   LET one(d) ==
         LET S == Enc(R, d.Q) IN
         IF d.Z # <<>> THEN [S |-> S, Z |-> IF c.kd = "c" THEN EncD(R, d.Q, d.Z) ELSE Enc(R, d.Z), U |-> d.U]
         ELSE IF c.kd = "d" THEN LET k == NCols(S) IN
              [S |-> Cols(S, Range2(1, k - 1)), Z |-> Cols(S, Range2(2, k)), U |-> IF d.U = <<>> THEN <<>> ELSE Cols(d.U, Range2(1, k - 1))]
         ELSE LET k == NCols(S)  i0 == c.dd
                  t == TLCEval([j \in 1..k |-> Rat(j, 2)])
                  oc == OutCols(ModeOf[i0], OrderOf[i0], k) IN
              [S |-> Cols(S, oc), Z |-> Ddt(ModeOf[i0], OrderOf[i0], S, t), U |-> IF d.U = <<>> THEN <<>> ELSE Cols(d.U, oc)]
   IN TLCEval([i \in 1..Len(data) |-> one(data[i])])
=============================================================================
