------------------------------- MODULE Param -------------------------------
(***************************************************************************)
(* Operators that depend on a parameter vector mu (rationals).              *)
(*   affine: E(mu) = sum_k theta_k(mu) E_k                                  *)
(*   interp: E(mu) = sum_i w_i(mu) E_i,  w the weights of the interpolation *)
(*           through the training parameters -- E(mu_i) = E_i.              *)
(***************************************************************************)
EXTENDS Ops

(* ---------------- affine coefficient functions ---------------- *)
Thetas == {"int", "poly", "iter", "one"}
NTerms(th, p) == CASE th = "int" -> p [] th = "poly" -> 3 [] th = "iter" -> 2 [] th = "one" -> 1
ThetaAt(th, mu) == CASE th = "int" -> mu
   [] th = "poly" -> <<R1, mu[1], RMul(mu[1], mu[Len(mu)])>>
   [] th = "iter" -> <<RAdd(mu[1], R1), RSub(RMul(I(2), mu[Len(mu)]), R1)>>
   [] th = "one" -> <<RAdd(mu[1], I(2))>>

(* ---------------- interpolation weights ---------------- *)
RECURSIVE RProdTo(_, _)
RProdTo(f, k) == IF k = 0 THEN R1 ELSE RMul(RProdTo(f, k - 1), f[k])
RProd(f) == LET g == TLCEval(f) IN RProdTo(g, Len(g))
Lagrange(P, x) == TLCEval([i \in 1..Len(P) |-> RProd([j \in 1..Len(P) |->
      IF j = i THEN R1 ELSE RDiv(RSub(x, P[j]), RSub(P[i], P[j]))])])
Sorted(P) == LET RECURSIVE f(_)
                 f(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE a \in S : \A b \in S : RLe(P[a], P[b]) IN <<x>> \o f(S \ {x})
             IN TLCEval(f(1..Len(P)))
(* piecewise linear, extended linearly beyond the ends                       *)
PLin(P, x) ==
   LET o == Sorted(P)  n == Len(P)
       k == IF n = 1 THEN 1 ELSE
            CHOOSE k \in 1..(n - 1) : (k = 1 \/ RLe(P[o[k]], x)) /\ (k = n - 1 \/ RLt(x, P[o[k + 1]]))
       a == o[k]  b == o[k + 1]
       w == RDiv(RSub(x, P[a]), RSub(P[b], P[a]))
   IN  TLCEval([i \in 1..n |-> IF i = a THEN RSub(R1, w) ELSE IF i = b THEN w ELSE R0])
Dist2(a, b) == RSum([k \in 1..Len(a) |-> RMul(RSub(a[k], b[k]), RSub(a[k], b[k]))])
NearestW(P, x) == LET i0 == CHOOSE i \in 1..Len(P) : \A j \in 1..Len(P) : RLe(Dist2(P[i], x), Dist2(P[j], x))
                  IN TLCEval([i \in 1..Len(P) |-> IF i = i0 THEN R1 ELSE R0])
UniqueNearest(P, x) == \E i \in 1..Len(P) : \A j \in 1..Len(P) : j = i \/ RLt(Dist2(P[i], x), Dist2(P[j], x))
(* barycentric coordinates in the first p + 1 points (more points only with   *)
(* entries affine in the parameter, where every triangulation agrees)         *)
Simplex(P, x) ==
   LET n == Len(P[1]) + 1
       M == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = 1 THEN R1 ELSE P[j][i - 1]]])
       S == RSolve(M, TLCEval([i \in 1..n |-> <<IF i = 1 THEN R1 ELSE x[i - 1]>>]))
   IN  TLCEval([i \in 1..Len(P) |-> IF i <= n THEN S[i][1] ELSE R0])
Independent(P) == LET n == Len(P[1]) + 1 IN Det([i \in 1..n |-> [j \in 1..n |-> IF i = 1 THEN 1 ELSE P[j][i - 1]]]) # 0

(* kinds: "poly" through all points (s <= 4, or s > 4 with cubic data),      *)
(* "plin", "nearest", "simplex"; P integer vectors                           *)
RP(P) == TLCEval([i \in 1..Len(P) |-> ToRV(P[i])])
First1(P) == TLCEval([i \in 1..Len(P) |-> I(P[i][1])])
Weights(kind, P, mu) == CASE kind = "poly" -> Lagrange(First1(P), mu[1])
   [] kind = "plin" -> PLin(First1(P), mu[1])
   [] kind = "nearest" -> NearestW(RP(P), mu)
   [] kind = "simplex" -> Simplex(RP(P), mu)

Combine(w, Es) == LET RECURSIVE f(_)
                      f(k) == IF k = 1 THEN RMatScale(w[1], ToR(Es[1])) ELSE RMatAdd(f(k - 1), RMatScale(w[k], ToR(Es[k])))
                  IN TLCEval(f(Len(Es)))
(* the data block of a rational state and input                              *)
RProdIdx(q, idx) == RProd([k \in 1..Len(idx) |-> q[idx[k]]])
RBlock(t, q, u) == CASE t = "B" -> u
   [] t = "N" -> TLCEval(Flatten([i \in 1..Len(u) |-> [j \in 1..Len(q) |-> RMul(u[i], q[j])]]))
   [] OTHER -> LET ix == MonoIdx(Degree(t), Len(q)) IN TLCEval([k \in 1..Len(ix) |-> RProdIdx(q, ix[k])])
(* apply a matrix of rationals to the data block / Jacobian block of a state *)
RApply(t, E, q, u) == RMulV(E, ToRV(Block(t, q, u)))
RJac(t, E, q, u) == T(TLCEval([l \in 1..Len(q) |-> RMulV(E, ToRV(DBlock(t, q, u, l)))]))

(* training parameters: distinct small integers in an order given by a seed  *)
Scalars(sd, s) == LET pm == Perm(sd, s + 3) IN TLCEval([i \in 1..s |-> << 2 * pm[i] - 3 + (((Hash2(sd, pm[i]) \div 3) % 2)) >>])
Points(sd, s, p) == RandMat(sd, s, p, -3, 4)
Distinct(P) == \A i, j \in 1..Len(P) : P[i] = P[j] => i = j
TrainingParams(sd, n, p) ==
   IF p = 1 THEN Scalars(sd + 11, n)
   ELSE LET ok(k) == LET P == Points(sd + 17 * k, n, p) IN Independent(P) /\ Distinct(P)
        IN Points(sd + 17 * (CHOOSE k \in 0..60 : ok(k) /\ \A i \in 0..(k - 1) : ~ok(i)), n, p)
=============================================================================
