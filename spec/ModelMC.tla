------------------------------ MODULE ModelMC ------------------------------
(***************************************************************************)
(* A model object whose operators are all given: evaluation, Jacobian,     *)
(* projection, discrete stepping and the initial value problem.            *)
(* One behaviour per configuration; the state is the simulated system:     *)
(* each Step advances the discrete model or one row of the exact solution. *)
(***************************************************************************)
EXTENDS Model, Json
CONSTANTS Forms, Kinds, Rs, Ms, Seeds, K, Focus
VARIABLES cfg, ops, done
vars == <<cfg, ops, done>>

Obj(t, c, k) == LET op == RandOp(t, c.r, IF NeedsInput(t) THEN c.m ELSE 0, c.s * 31 + k * 7 + c.r) IN op
MkOps(c, f) == [k \in 1..Len(f) |-> Obj(f[k], c, k)]
NeedIn(f) == \E k \in 1..Len(f) : NeedsInput(f[k])

Init == \E f \in Forms : \E kd \in Kinds : \E r \in Rs : \E m \in Ms : \E s \in Seeds :
   /\ (m > 0) = NeedIn(f)
   /\ cfg = [f |-> f, kd |-> kd, r |-> r, m |-> m, s |-> s]
   /\ ops = TLCEval(MkOps([r |-> r, m |-> m, s |-> s], f))
   /\ done = <<>>

Sd == cfg.s * 17 + cfg.r * 5 + cfg.m + Len(cfg.f)
Q == RandMat(Sd + 1, cfg.r, K, -2, 3)
U == IF cfg.m = 0 THEN <<>> ELSE RandMat(Sd + 2, cfg.m, K, -2, 2)
UCol(j) == IF cfg.m = 0 THEN <<>> ELSE Col(U, j)
Sparse(op, s) == [op EXCEPT !.E = TLCEval([i \in 1..Len(op.E) |-> [j \in 1..Len(op.E[i]) |->
                     IF Pick(s, i, j, 0, 2) = 0 THEN Sgn(op.E[i][j]) ELSE 0]])]
SOps == TLCEval([k \in 1..Len(ops) |-> Sparse(ops[k], Sd + k)])
TOps == TLCEval([k \in 1..Len(ops) |-> Triangular([ops[k] EXCEPT !.E =
            TLCEval([i \in 1..Len(ops[k].E) |-> [j \in 1..Len(ops[k].E[i]) |-> Sgn(ops[k].E[i][j])]])])])
Q0 == RandVec(Sd + 3, cfg.r, -1, 2)
Eval == [Q |-> Q, U |-> U, rhs |-> LhsOf(ops, Q, U),
         jac |-> [j \in 1..K |-> RhsJac(ops, Col(Q, j), UCol(j))]]
(* discrete model: horizon until the states leave the exact range           *)
KU == 7
SU == IF cfg.m = 0 THEN <<>> ELSE RandMat(Sd + 4, cfg.m, KU, -1, 1)
Disc == LET tr == Trajectory(SOps, Q0, SU, KU, 60) IN
        [E |-> [k \in 1..Len(ops) |-> SOps[k].E], U |-> SU, q0 |-> Q0, traj |-> FromCols(tr)]
UDeg == 1 + (cfg.s % 3)
UPoly == TLCEval([i \in 1..cfg.m |-> [j \in 1..(UDeg + 1) |-> I(Pick(Sd + 6, i, j, -1, 1))]])
Cont == LET ps == SolveTri(TOps, Q0, UPoly, <<>>) IN
        IF BadPolys(ps) THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, E |-> [k \in 1..Len(ops) |-> TOps[k].E], u |-> UPoly, q0 |-> Q0, sol |-> ps, udeg |-> UDeg,
              pu |-> (IF cfg.m = 0 THEN <<>> ELSE [j \in 1..3 |-> [i \in 1..cfg.m |-> PEval(UPoly[i], I(j - 1))[1]]]),
              prhs |-> (IF cfg.m = 0 THEN <<>> ELSE [j \in 1..3 |-> LET uu == [i \in 1..cfg.m |-> PEval(UPoly[i], I(j - 1))[1]]
                         IN RhsOf(TOps, Col(Q, j), uu)])]
(* Petrov-Galerkin projection of the whole model                            *)
GoodPair(n, rr) ==
   LET pr(s) == <<RandMat(s, n, rr, -2, 2), RandMat(s + 1, n, rr, -1, 2)>>
       ok(s) == LET p == pr(s) IN Det(IMul(T(p[2]), p[1])) # 0 /\ Det(IMul(T(p[1]), p[1])) # 0
       k == CHOOSE j \in 1..400 : ok(Sd * 13 + j) /\ \A i \in 1..(j - 1) : ~ok(Sd * 13 + i)
   IN  pr(Sd * 13 + k)
RVSumAll(vs) == LET RECURSIVE f(_)
                    f(k) == IF k = 1 THEN vs[1] ELSE RVAdd(f(k - 1), vs[k]) IN f(Len(vs))
Gal == [k \in 1..Min2(cfg.r, 2) |->
   LET p == GoodPair(cfg.r, k)  Z == RandMat(Sd + 5, k, 3, -2, 2)
       in(op, j) == IF NeedsInput(op.t) THEN UCol(j) ELSE <<>>
       red(V, W, j) == RVSumAll([i \in 1..Len(ops) |-> PGApply(ops[i], V, W, Col(Z, j), in(ops[i], j))])
   IN [V |-> p[1], W |-> p[2], Z |-> Z, rr |-> k,
       pg |-> [j \in 1..3 |-> red(p[1], p[2], j)], g |-> [j \in 1..3 |-> red(p[1], p[1], j)]]]

Obs == [E |-> [k \in 1..Len(ops) |-> ops[k].E], eval |-> Eval,
        disc |-> (IF Focus = "run" /\ cfg.kd = "d" THEN Disc ELSE <<>>),
        cont |-> (IF Focus = "run" /\ cfg.kd = "c" THEN Cont ELSE <<>>),
        gal  |-> (IF Focus = "gal" THEN Gal ELSE <<>>)]
Next == done = <<>> /\ done' = <<TLCEval(Obs)>> /\ UNCHANGED <<cfg, ops>>
Spec == Init /\ [][Next]_vars

(* the emitted polynomials do solve the initial value problem: at integer   *)
(* times their derivative is the right-hand side                             *)
SolvesIVP == done # <<>> /\ Focus = "run" /\ cfg.kd = "c" /\ done[1].cont.ok =>
   \A x \in {0, 1} :
      LET c == done[1].cont
          q == [i \in 1..cfg.r |-> PEval(c.sol[i], I(x))]
          u == [i \in 1..cfg.m |-> PEval(c.u[i], I(x))]
          d == [i \in 1..cfg.r |-> PEval(PDer(c.sol[i]), I(x))]
      IN (\A i \in 1..cfg.r : q[i][2] = 1 /\ Abs(q[i][1]) < 200) =>
            d = ToRV(RhsOf([k \in 1..Len(ops) |-> [ops[k] EXCEPT !.E = c.E[k]]],
                           [i \in 1..cfg.r |-> q[i][1]], [i \in 1..cfg.m |-> u[i][1]]))
(* projecting with V = W = I changes nothing: linearity of the sum           *)
SumIsSum == done # <<>> =>
   \A j \in 1..K : Col(done[1].eval.rhs, j) =
       LET RECURSIVE f(_)
           f(k) == IF k = 0 THEN [i \in 1..cfg.r |-> 0]
                   ELSE IVAdd(Apply(ops[k], Col(Q, j), IF NeedsInput(ops[k].t) THEN UCol(j) ELSE <<>>), f(k - 1))
       IN f(Len(ops))
Emit == done # <<>> => PrintT("B@" \o ToJson([cfg |-> cfg, o |-> done[1]]))
=============================================================================
