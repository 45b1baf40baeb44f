------------------------------ MODULE ParamMC ------------------------------
(***************************************************************************)
(* The life of one parametric model: operators that are constant in the     *)
(* parameter, affine or interpolated, some of them known; training with one *)
(* data set per parameter (in any order), training again with other data,  *)
(* other parameters, refits.  What must be inferred is the regression over  *)
(* all parameters together; what the model does at a parameter is the sum   *)
(* of its operators evaluated there.                                        *)
(***************************************************************************)
EXTENDS Param, Json
CONSTANTS Terms, Kinds, Rs, Ms, Ps, Seeds, Regs, MaxLen, Acts, Stride
VARIABLES cfg, data, tr, hist
vars == <<cfg, data, tr, hist>>

NT == Len(cfg.ts)
HasIn(ts) == \E k \in 1..Len(ts) : NeedsInput(ts[k].t)
AllInterp(ts) == \A k \in 1..Len(ts) : ts[k].how = "interp"
AnyPar(ts) == \E k \in 1..Len(ts) : ts[k].how # "plain"
Num_(c, d) == IF c.p = 1 THEN (IF d = 1 THEN 3 ELSE 4) ELSE c.p + 1       \* parameters of data set d
P(c, d) == TrainingParams(c.s + 3 * d, Num_(c, d), c.p)
(* known interpolated operators carry parameters of their own                *)
PK(c) == IF c.p = 1 THEN TrainingParams(c.s + 99, 3, 1)
         ELSE LET V == << <<-10, -10>>, <<20, -10>>, <<-10, 20>> >>  o == Perm(c.s, 3) IN <<V[o[1]], V[o[2]], V[o[3]]>>
KindOf(p) == IF p = 1 THEN "poly" ELSE "simplex"
WeightsOf(c, k, d, mu) ==
   LET x == c.ts[k] IN
   CASE x.how = "plain" -> <<R1>>
     [] x.how = "affine" -> ThetaAt(x.th, mu)
     [] x.how = "interp" -> Weights(KindOf(c.p), IF x.known THEN PK(c) ELSE P(c, d), mu)
(* matrices of the true operators; unknown interpolated ones per data set    *)
True_(c, k, d) ==
   LET x == c.ts[k]
       n == CASE x.how = "plain" -> 1 [] x.how = "affine" -> NTerms(x.th, c.p)
              [] x.how = "interp" -> (IF x.known THEN Len(PK(c)) ELSE Num_(c, d))
       m == IF NeedsInput(x.t) THEN c.m ELSE 0
   IN TLCEval([i \in 1..n |-> RandMat(c.s * 17 + k * 5 + i * 101 + (IF x.how = "interp" /\ ~x.known THEN 7 * d ELSE 0),
                                      c.r, OpDim(x.t, c.r, m), -2, 2)])
At(c, k, d, mu) == Combine(WeightsOf(c, k, d, mu), True_(c, k, d))
BlockOf(x, q, u) == Block(x.t, q, IF NeedsInput(x.t) THEN u ELSE <<>>)
RhsAt(c, d, ks, mu, q, u) == LET RECURSIVE f(_)
                                 f(i) == IF i = 0 THEN TLCEval([l \in 1..c.r |-> R0])
                                         ELSE RVAdd(f(i - 1), RMulV(At(c, ks[i], d, mu), ToRV(BlockOf(c.ts[ks[i]], q, u))))
                             IN f(Len(ks))
JacAt(c, d, mu, q, u) == LET RECURSIVE f(_)
                             f(i) == IF i = 0 THEN ToR(IZero(c.r, c.r))
                                     ELSE RMatAdd(f(i - 1), RJac(c.ts[i].t, At(c, i, d, mu), q, IF NeedsInput(c.ts[i].t) THEN u ELSE <<>>))
                         IN f(Len(c.ts))
Unk(c) == SelectSeq(Range2(1, Len(c.ts)), LAMBDA i : ~c.ts[i].known)
Kn(c) == SelectSeq(Range2(1, Len(c.ts)), LAMBDA i : c.ts[i].known)

(* rows of the data matrix of the unknown operators                          *)
Row(c, d, i, q, u) == Flatten([a \in 1..Len(Unk(c)) |->
   LET k == Unk(c)[a]  x == c.ts[k]  b == BlockOf(x, q, u) IN
   CASE x.how = "plain" -> b
     [] x.how = "affine" -> LET th == ThetaAt(x.th, ToRV(P(c, d)[i])) IN Flatten([j \in 1..Len(th) |-> [l \in 1..Len(b) |-> th[j][1] * b[l]]])
     [] x.how = "interp" -> Flatten([j \in 1..Num_(c, d) |-> [l \in 1..Len(b) |-> IF j = i THEN b[l] ELSE 0]])])
ColsOf(c, d) == Len(Row(c, d, 1, RandVec(1, c.r, 1, 1), RandVec(1, c.m, 1, 1)))
Raw(c, d, j, i) ==
   LET sd == c.s * 101 + d * 977 + j * 13 + i * 7
       k == 2 + (ColsOf(c, d) \div Num_(c, d)) + ((sd % 3))
       kk == IF AllInterp([a \in 1..Len(Unk(c)) |-> c.ts[Unk(c)[a]]]) THEN k + 2 ELSE k
   IN [Q |-> RandMat(sd, c.r, kk, -3, 3), U |-> IF c.m = 0 THEN <<>> ELSE RandMat(sd + 1, c.m, kk, -2, 2)]
Uc(U, j) == IF U = <<>> THEN <<>> ELSE Col(U, j)
Matrix(c, d, j) == Flatten([i \in 1..Num_(c, d) |-> LET x == TLCEval(Raw(c, d, j, i)) IN [l \in 1..NCols(x.Q) |-> Row(c, d, i, Col(x.Q, l), Uc(x.U, l))]])
Good(c, d, j) == RankLB(Matrix(c, d, j)) = ColsOf(c, d)
DataSet(c, d) ==
   LET j0 == CHOOSE j \in 0..30 : Good(c, d, j) /\ \A i \in 0..(j - 1) : ~Good(c, d, i)
       set(i) == LET x == TLCEval(Raw(c, d, j0, i))
                     mu == ToRV(P(c, d)[i])
                     known == TLCEval([l \in 1..NCols(x.Q) |-> RhsAt(c, d, Kn(c), mu, Col(x.Q, l), Uc(x.U, l))])
                     unk == TLCEval([l \in 1..NCols(x.Q) |-> RVAdd(RhsAt(c, d, Unk(c), mu, Col(x.Q, l), Uc(x.U, l)),
                              IF d = 2 /\ c.noise THEN ToRV(RandVec(c.s + i * 31 + l, c.r, -2, 2)) ELSE TLCEval([a \in 1..c.r |-> R0]))])
                 IN [Q |-> x.Q, U |-> x.U, Z |-> T(TLCEval([l \in 1..NCols(x.Q) |-> RVAdd(known[l], unk[l])])), R |-> T(unk)]
   IN [P |-> P(c, d), sets |-> TLCEval([i \in 1..Num_(c, d) |-> set(i)]), D |-> Matrix(c, d, j0), exact |-> ~(d = 2 /\ c.noise),
       E |-> [k \in 1..Len(c.ts) |-> True_(c, k, d)]]

Half(x) == Rat(x, 2)
EvalMus(c, d) ==
   LET Q == P(c, d)  n == Len(Q)  o == Perm(c.s + 3, n)
       w3 == [k \in 1..c.p |-> RDiv(I(ISum([i \in 1..n |-> (IF i = o[1] THEN 2 ELSE 1) * Q[i][k]])), I(n + 1))]
       (* known interpolated operators can be evaluated inside their own simplex only *)
       inside(mu) == c.p = 1 \/ \A k \in 1..Len(c.ts) : ~(c.ts[k].how = "interp" /\ c.ts[k].known) \/
                        LET w == WeightsOf(c, k, d, mu) IN \A i \in 1..Len(w) : RLt(R0, w[i])
   IN  SelectSeq(TLCEval(<<ToRV(Q[o[1]]), w3, ToRV(Q[o[2]])>>), LAMBDA mu : inside(mu))
TrajAt(c, d, mu, q, U) == LET RECURSIVE f(_, _)
                              f(x, l) == IF l > 2 THEN <<x>> ELSE <<x>> \o f(LET RECURSIVE g(_)
                                    g(i) == IF i = 0 THEN TLCEval([a \in 1..c.r |-> R0])
                                       ELSE RVAdd(g(i - 1), RMulV(At(c, i, d, mu), RBlock(c.ts[i].t, x, IF NeedsInput(c.ts[i].t) THEN ToRV(Col(U, l)) ELSE <<>>)))
                                 IN TLCEval(g(Len(c.ts))), l + 1)
                          IN f(ToRV(q), 1)
ObsAt(c, d, mu) ==
   LET q == RandVec(c.s + 29, c.r, -2, 2)  u == RandVec(c.s + 31, Max2(1, c.m), -2, 2)
       U == RandMat(c.s + 37, Max2(1, c.m), 3, -2, 2)
       q0 == RandVec(c.s + 41, c.r, -1, 1) IN
   [mu |-> mu, w |-> [k \in 1..Len(c.ts) |-> WeightsOf(c, k, d, mu)], q |-> q, u |-> u,
    rhs |-> RhsAt(c, d, Range2(1, Len(c.ts)), mu, q, u), jac |-> JacAt(c, d, mu, q, u),
    q0 |-> q0, U |-> U, traj |-> TrajAt(c, d, mu, q0, U)]

(* operators to infer must differ in type (affine and plain ones alike)      *)
Unique(ts) == \A i, j \in 1..Len(ts) : (ts[i].t = ts[j].t /\ ~ts[i].known /\ ~ts[j].known) => i = j
Identifiable(c) == \A d \in 1..2 : \E j \in 0..30 : Good(c, d, j)

Init == \E ts \in Terms : \E kd \in Kinds : \E r \in Rs : \E m \in Ms : \E p \in Ps : \E sd \in Seeds : \E g \in Regs :
   LET h == Hash2(Hash3(sd, r + 5 * m, p), Len(ts) + 3 * g + (IF kd = "d" THEN 1 ELSE 0) + 11 * ISum([k \in 1..Len(ts) |-> (IF ts[k].known THEN k ELSE 0) + 3 * Degree(ts[k].t)])) IN
   /\ (m > 0) = HasIn(ts)
   /\ Unique(ts) /\ AnyPar(ts) /\ (\E k \in 1..Len(ts) : ~ts[k].known)
   /\ (\A k \in 1..Len(ts) : ts[k].th = "int" => TRUE)
   /\ (((h \div 7) % Stride) = 0)
   /\ cfg = [ts |-> ts, kd |-> kd, r |-> r, m |-> m, p |-> p, s |-> sd * 11 + r + 3 * p, reg |-> g, noise |-> (h % 3) # 0, all |-> AllInterp(ts)]
   /\ data = <<>> /\ tr = 0 /\ hist = <<>>
Gen == /\ data = <<>>
       /\ Identifiable(cfg) = TRUE
       /\ data' = <<TLCEval(DataSet(cfg, 1)), TLCEval(DataSet(cfg, 2))>>
       /\ UNCHANGED <<cfg, tr, hist>>
Do(a, d, t) == tr' = t /\ hist' = Append(hist, [a |-> a, d |-> d]) /\ UNCHANGED <<cfg, data>>
Step == /\ data # <<>> /\ Len(hist) < MaxLen
        /\ \/ \E d \in 1..2 : Do("fit", d, d) \/ Do("permuted", d, d)
           \/ "refit" \in Acts /\ tr # 0 /\ Do("refit", tr, tr)
           \/ "copy" \in Acts /\ tr # 0 /\ Do("copy", tr, tr)
Next == Gen \/ Step
Spec == Init /\ [][Next]_vars

(* exact data satisfy the regression with the true operators, and at a       *)
(* training parameter an interpolated operator is the one of that parameter  *)
OhatOf(c, d) == HCatAll([a \in 1..Len(Unk(c)) |-> HCatAll(True_(c, Unk(c)[a], d))])
Consistent == data # <<>> => \A d \in 1..2 :
   data[d].exact => RMatMul(ToR(data[d].D), T(ToR(OhatOf(cfg, d)))) = T(HCatAll([i \in 1..Num_(cfg, d) |-> data[d].sets[i].R]))
Emit == Len(hist) = MaxLen => PrintT("B@" \o ToJson([cfg |-> cfg, PK |-> PK(cfg), data |-> data, hist |-> hist, perm |-> [d \in 1..2 |-> Perm(cfg.s + 1, Num_(cfg, d))],
    obs |-> [d \in 1..2 |-> LET mus == EvalMus(cfg, d) IN [j \in 1..Len(mus) |-> ObsAt(cfg, d, mus[j])]]]))
=============================================================================
