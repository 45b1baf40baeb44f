----------------------------- MODULE ParamOpMC -----------------------------
(***************************************************************************)
(* One parametric operator: entries are set (and set again), the            *)
(* interpolation is changed, refused calls are made; after every step it    *)
(* must evaluate to the documented operator at every parameter.             *)
(***************************************************************************)
EXTENDS Param, Json
CONSTANTS Ts, Hows, Rs, Ms, Ps, Seeds, MaxLen
VARIABLES cfg, cur, hist
vars == <<cfg, cur, hist>>

Params(c) == TrainingParams(c.s, c.n, c.p)

Matrices(c, d) ==
   LET cols == OpDim(c.t, c.r, c.m)
       M(k) == RandMat(c.s * 13 + d * 101 + k, c.r, cols, -3, 3) IN
   IF c.how = "affine" THEN TLCEval([k \in 1..NTerms(c.th, c.p) |-> M(k)])
   ELSE IF c.p > 1 /\ c.n > c.p + 1 THEN LET P == Params(c) IN      \* affine in the parameter
        TLCEval([k \in 1..c.n |-> LET RECURSIVE f(_)
                                      f(i) == IF i = 0 THEN M(0) ELSE IAdd(f(i - 1), IScale(P[k][i], M(i)))
                                  IN f(c.p)])
   ELSE IF c.n <= 4 \/ c.th # "poly" THEN TLCEval([k \in 1..c.n |-> M(k)])
   ELSE LET P == Params(c) IN        \* cubic in the parameter
        TLCEval([k \in 1..c.n |-> LET x == P[k][1] IN IAdd(IAdd(M(1), IScale(x, M(2))), IAdd(IScale(x * x, M(3)), IScale(x * x * x, M(4))))])

(* parameters to evaluate at: training parameters and others                 *)
Half(x) == Rat(x, 2)
EvalMus(c) ==
   IF c.how = "affine" THEN TLCEval([j \in 1..3 |-> [k \in 1..c.p |-> Half(Pick(c.s + 5, j, k, -5, 5))]])
   ELSE LET P == Params(c)  o == Perm(c.s + 3, c.n)
            mid(i, j, a) == [k \in 1..c.p |-> RDiv(I(a * P[i][k] + (4 - a) * P[j][k]), I(4))]
            w3 == [k \in 1..c.p |-> RDiv(I(ISum([i \in 1..c.n |-> (IF i = o[1] THEN 2 ELSE 1) * P[i][k]])), I(c.n + 1))]
        IN  TLCEval(<<ToRV(P[o[1]]), mid(o[1], o[2], 1), mid(o[1], o[2], 3), w3, ToRV(P[o[2]])>>)
UsableMu(c, mu, kind) == kind # "nearest" \/ UniqueNearest(RP(Params(c)), mu)
(* coinciding data give the same operator whatever the simplex boundary      *)
WeightsAt(c, kind, mu) == IF c.how = "affine" THEN ThetaAt(c.th, mu) ELSE Weights(kind, Params(c), mu)

Rq(c) == RandVec(c.s + 29, c.r, -2, 2)
Ru(c) == IF NeedsInput(c.t) THEN RandVec(c.s + 31, c.m, -2, 2) ELSE <<>>
RV_(c) == LET k == Max2(1, c.r - 1)
              ok(j) == Det(IMul(T(RandMat(c.s + 43 + j, c.r, k, -2, 2)), RandMat(c.s + 47 + j, c.r, k, -2, 2))) # 0
              j0 == CHOOSE j \in 0..60 : ok(j) /\ \A i \in 0..(j - 1) : ~ok(i)
          IN [V |-> RandMat(c.s + 47 + j0, c.r, k, -2, 2), W |-> RandMat(c.s + 43 + j0, c.r, k, -2, 2)]

ObsAt(c, kind, Es, mu) ==
   LET E == Combine(WeightsAt(c, kind, mu), Es)
       q == Rq(c)  u == Ru(c)
       vw == RV_(c)
       z == SubSeq(q, 1, NCols(vw.V))
       WT == T(vw.W)
       pg == RMulV(IInv(IMul(WT, vw.V)), RMulV(ToR(WT), RApply(c.t, E, IMulV(vw.V, z), u)))
   IN  [mu |-> mu, E |-> E, app |-> RApply(c.t, E, q, u), jac |-> RJac(c.t, E, q, u), z |-> z, pg |-> pg]
(* training blocks: data for each of a list of parameters                    *)
BlockMus(c) == IF c.how = "affine" THEN TLCEval([j \in 1..3 |-> [k \in 1..c.p |-> Pick(c.s + 7, j, k, -3, 3)]]) ELSE Params(c)
BlockData(c, kind, Es) ==
   LET mus == BlockMus(c) IN
   TLCEval([i \in 1..Len(mus) |->
      LET k == 1 + ((c.s + i) % 3)
          Q == RandMat(c.s * 3 + i, c.r, k, -2, 2)
          U == IF NeedsInput(c.t) THEN RandMat(c.s * 5 + i, c.m, k, -2, 2) ELSE <<>>
          E == IF c.how = "affine" THEN Combine(ThetaAt(c.th, ToRV(mus[i])), Es) ELSE ToR(Es[i])
      IN [Q |-> Q, U |-> U, Z |-> T(TLCEval([j \in 1..k |-> RApply(c.t, E, Col(Q, j), IF U = <<>> THEN <<>> ELSE Col(U, j))]))]])

Kinds1 == {"poly", "plin", "nearest"}
Init == \E t \in Ts : \E how \in Hows : \E r \in Rs : \E m \in Ms : \E p \in Ps : \E sd \in Seeds :
        \E th \in (IF how = "affine" THEN Thetas ELSE IF p = 1 THEN Kinds1 ELSE {"simplex", "nearest"}) :
        \E n \in (IF how = "affine" THEN {0} ELSE IF p = 1 THEN {2, 3, 4, 6} ELSE {p + 1, p + 3}) :
   /\ (m > 0) = NeedsInput(t)
   /\ cfg = [t |-> t, how |-> how, r |-> r, m |-> m, p |-> p, s |-> sd * 7 + r + 3 * p + n, th |-> th, n |-> n]
   /\ cur = [d |-> 0, kind |-> th] /\ hist = <<>>

Do(a, d, k) == LET Es == IF d = 0 THEN <<>> ELSE Matrices(cfg, d)
                   mus == SelectSeq(EvalMus(cfg), LAMBDA mu : UsableMu(cfg, mu, k)) IN
   /\ cur' = [d |-> d, kind |-> k]
   /\ hist' = Append(hist, [a |-> a, d |-> d, kind |-> k,
        obs |-> IF d = 0 THEN <<>> ELSE TLCEval([j \in 1..Len(mus) |-> ObsAt(cfg, k, Es, mus[j])])])
   /\ UNCHANGED cfg
SetE == \E d \in 1..2 : d # cur.d /\ Do("set", d, cur.kind)
(* changing the interpolation of scattered data                              *)
SetI == cfg.how = "interp" /\ \E k \in (IF cfg.p = 1 THEN Kinds1 ELSE {"simplex", "nearest"}) :
          /\ k # cur.kind
          /\ ~(cfg.n > 4 /\ (k = "poly" \/ cur.kind = "poly"))
          /\ Do("interp", cur.d, k)
Next == Len(hist) < MaxLen /\ (SetE \/ SetI)
Spec == Init /\ [][Next]_vars

(* interpolation reproduces the training matrices; weights sum to one; and   *)
(* the order in which the data are given is irrelevant                       *)
Reproduces == (cfg.how = "interp" /\ cur.d > 0) => LET P == Params(cfg)  Es == Matrices(cfg, cur.d) IN
   \A i \in 1..cfg.n : Combine(WeightsAt(cfg, cur.kind, ToRV(P[i])), Es) = ToR(Es[i])
SumOne == cfg.how = "interp" => \A j \in 1..3 : RSum(WeightsAt(cfg, cur.kind, EvalMus(cfg)[j])) = R1
Emit == (Len(hist) = MaxLen /\ cur.d > 0) => PrintT("B@" \o ToJson([cfg |-> cfg, P |-> (IF cfg.how = "interp" THEN Params(cfg) ELSE <<>>),
    E1 |-> Matrices(cfg, 1), E2 |-> Matrices(cfg, 2), q |-> Rq(cfg), u |-> Ru(cfg), vw |-> RV_(cfg), mus |-> BlockMus(cfg),
    blk |-> BlockData(cfg, cur.kind, Matrices(cfg, cur.d)), perm |-> Perm(cfg.s + 1, Max2(1, cfg.n)), hist |-> hist]))
=============================================================================
