------------------------------- MODULE Lstsq -------------------------------
(***************************************************************************)
(* Least-squares solvers: what solve() must return for data matrix D (k,d),*)
(* left-hand side Z (r,k) and the current settings.                        *)
(*                                                                         *)
(* Regularised problems: row i of the answer O satisfies the normal        *)
(* equations  (D'D + Gi'Gi) o_i = D' z_i ; GG(i) = Gi'Gi below.            *)
(* Truncated SVD and total least squares: data with a known SVD.           *)
(***************************************************************************)
EXTENDS Orth

Kinds == {"plain", "l2", "l2d", "tik", "tikd", "tsvd", "tls"}
Regularised(k) == k \in {"l2", "l2d", "tik", "tikd"}

(* sums of squares of the rows of  O D' - Z  and of  Gi o_i                 *)
Residual(D, Z, O) == LET E == RMatSub(RMatMul(O, T(D)), Z) IN TLCEval([i \in 1..Len(E) |-> RNorm2V(E[i])])
RegPart(G, O) == TLCEval([i \in 1..Len(O) |-> RNorm2V(RMulV(G[i], O[i]))])      \* G: one matrix per row
ScaledEye(l, d) == TLCEval([i \in 1..d |-> [j \in 1..d |-> IF i = j THEN l ELSE R0]])

(* answers for data with known SVD  D = Phi diag(sv) Psi' *)
Trunc(Phi, sv, Psi, Z, n) ==
   LET ZP == RMatMul(Z, FirstCols(Phi, n))
       S == TLCEval([i \in 1..Len(ZP) |-> [j \in 1..n |-> RDiv(ZP[i][j], sv[j])]])
   IN  RMatMul(S, T(FirstCols(Psi, n)))
(* the same with L2 regularisation g (Tikhonov with g*I), modes 1..n        *)
TruncReg(Phi, sv, Psi, Z, n, g) ==
   LET ZP == RMatMul(Z, FirstCols(Phi, n))
       S == TLCEval([i \in 1..Len(ZP) |-> [j \in 1..n |-> RDiv(RMul(ZP[i][j], sv[j]), RAdd(RMul(sv[j], sv[j]), RMul(g, g)))]])
   IN  RMatMul(S, T(FirstCols(Psi, n)))
(* total least squares from the SVD of [D Z'] = Phi diag(sv) Psi'           *)
TLSAnswer(Psi, d, r) ==
   LET DZ == TLCEval([i \in 1..d |-> [j \in 1..r |-> Psi[i][d + j]]])
       ZZ == TLCEval([i \in 1..r |-> [j \in 1..r |-> Psi[d + i][d + j]]])
   IN  RMatScale(<<-1, 1>>, RSolve(T(ZZ), T(DZ)))
TLSError2(sv, d) == RSum([j \in 1..(Len(sv) - d) |-> RMul(sv[d + j], sv[d + j])])
=============================================================================
