------------------------------- MODULE Basis -------------------------------
(***************************************************************************)
(* Linear bases V with an inner product weight W:                          *)
(*   compress  q |-> V' W q      decompress c |-> V c                      *)
(* and proper orthogonal decomposition: the leading left singular vectors  *)
(* of the (weighted) training data, the smallest dimension meeting a       *)
(* criterion, and the energies reported.  Training data are built from     *)
(* their singular value decomposition, so every answer is known exactly    *)
(* (up to the sign of each basis vector).                                  *)
(***************************************************************************)
EXTENDS Orth

(* orthogonal matrices with very small denominators                         *)
OrthS(s, n) == LET w == Min2(4, n)  sel == TLCEval(SubSeq(Perm(s, n), 1, w))
               IN HouseOn(n, sel, NonZero(RandVec(s * 7 + 1, w, -1, 1)))
(* square root of the weight matrix, and its inverse                        *)
Roots(s, n) == TLCEval([i \in 1..n |-> Rat(Pick(s, i, 3, 1, 3), Pick(s, i, 4, 1, 2))])
SqrtW(form, s, n) == CASE form = "none" -> REyeM(n)
   [] form = "diag" -> RDiag(Roots(s, n))
   [] OTHER -> LET P == OrthS(s + 9, n) IN FromSVD(P, Roots(s, n), P)
SqrtWInv(form, s, n) == LET a == Roots(s, n)  b == TLCEval([i \in 1..n |-> RInv(a[i])]) IN
   CASE form = "none" -> REyeM(n)
   [] form = "diag" -> RDiag(b)
   [] OTHER -> LET P == OrthS(s + 9, n) IN FromSVD(P, b, P)

Compress(V, W, Q) == RMatMul(T(V), RMatMul(W, Q))
Project(V, W, Q) == RMatMul(V, Compress(V, W, Q))

(* energies of the first i singular values out of sv                        *)
Energy(sv) == LET tot == RSum([i \in 1..Len(sv) |-> RMul(sv[i], sv[i])]) IN
   TLCEval([i \in 1..Len(sv) |-> RDiv(RSum([j \in 1..i |-> RMul(sv[j], sv[j])]), tot)])
(* smallest dimension meeting a criterion [n |-> name, v |-> value]         *)
SmallestFrom(P(_), k) == IF \E i \in 1..k : P(i) THEN CHOOSE i \in 1..k : P(i) /\ \A j \in 1..(i - 1) : ~P(j) ELSE k
Dim(crit, sv) == LET en == Energy(sv)  k == Len(sv) IN
   CASE crit.n = "num_vectors" -> crit.v[1]
     [] crit.n = "svdval_threshold" -> Cardinality({i \in 1..k : RLe(crit.v, RDiv(sv[i], sv[1]))})
     [] crit.n = "cumulative_energy" -> SmallestFrom(LAMBDA i : RLe(crit.v, en[i]), k)
     [] crit.n = "residual_energy" -> SmallestFrom(LAMBDA i : RLe(RSub(R1, en[i]), crit.v), k)
     [] crit.n = "projection_error" -> SmallestFrom(LAMBDA i : RLe(RSub(R1, en[i]), RMul(crit.v, crit.v)), k)
(* no singular value sits exactly on the boundary of a criterion, so that    *)
(* rounding in the code cannot decide the comparison                        *)
Clear(crit, sv) == LET en == Energy(sv)  k == Len(sv) IN
   CASE crit.n = "num_vectors" -> TRUE
     [] crit.n = "svdval_threshold" -> \A i \in 1..k : RDiv(sv[i], sv[1]) # crit.v \/ i = 1
     [] crit.n = "cumulative_energy" -> \A i \in 1..k : en[i] # crit.v
     [] crit.n = "residual_energy" -> \A i \in 1..k : RSub(R1, en[i]) # crit.v
     [] crit.n = "projection_error" -> \A i \in 1..k : RSub(R1, en[i]) # RMul(crit.v, crit.v)

(* stand-alone functions: the class criterion for singular values compares   *)
(* with >=, the function with >                                             *)
Ranks(sv, v) == LET en == Energy(sv)  k == Len(sv) IN
   [decay |-> Cardinality({i \in 1..k : RLt(v, RDiv(sv[i], sv[1]))}),
    cumulative |-> IF RLe(v, R0) THEN 0 ELSE SmallestFrom(LAMBDA i : RLe(v, en[i]), k),
    residual |-> IF RLe(R1, v) THEN 0 ELSE SmallestFrom(LAMBDA i : RLe(RSub(R1, en[i]), v), k),
    error |-> IF RLe(R1, v) THEN 0 ELSE SmallestFrom(LAMBDA i : RLe(RSub(R1, en[i]), RMul(v, v)), k)]

(* everything about one set of training data / one linear basis             *)
Facts(V, W, s, n) ==
   LET q == NCols(V)
       X == ToR(RandMat(s + 31, n, 2, -3, 3))
       C == ToR(RandMat(s + 37, q, 2, -3, 3))
       coef == Compress(V, W, X)
       Part(r, M) == RMatMul(FirstCols(V, r), Rows(M, Range2(1, r)))
   IN [X |-> X, C |-> C, coef |-> coef, x2 |-> RFrob2(X),
       proj |-> TLCEval([r \in 1..q |-> Part(r, coef)]),
       dec |-> TLCEval([r \in 1..q |-> Part(r, C)]),
       err2 |-> TLCEval([r \in 1..q |-> RFrob2(RMatSub(X, Part(r, coef)))])]
PodFacts(sd, n, k, form, wsd) ==
   LET q == Min2(n, k)
       Phi == FirstCols(Orth(sd, n, 1), q)
       Psi == FirstCols(OrthS(sd + 3, k), q)
       sv == Svals(sd, q)
       Si == SqrtWInv(form, wsd, n)  S == SqrtW(form, wsd, n)
       W == RMatMul(S, S)
       V == RMatMul(Si, Phi)
       f == Facts(V, W, sd, n)
   IN [n |-> n, k |-> k, V |-> V, W |-> W, form |-> form, sv |-> sv, cum |-> Energy(sv), Psi |-> Psi,
       S |-> RMatMul(V, RMatMul(RDiag(sv), T(Psi))), X |-> f.X, C |-> f.C, coef |-> f.coef, x2 |-> f.x2,
       proj |-> f.proj, dec |-> f.dec, err2 |-> f.err2]
LinFacts(sd, n, r, form, wsd, orth) ==
   LET S == SqrtW(form, wsd, n)  W == RMatMul(S, S)
       V == IF orth THEN RMatMul(SqrtWInv(form, wsd, n), FirstCols(Orth(sd, n, 1), r)) ELSE ToR(RandMat(sd, n, r, -2, 2))
       f == Facts(V, W, sd, n)
   IN [n |-> n, k |-> 0, V |-> V, W |-> W, form |-> form, sv |-> <<>>, cum |-> <<>>, Psi |-> <<>>, S |-> <<>>,
       X |-> f.X, C |-> f.C, coef |-> f.coef, x2 |-> f.x2, proj |-> f.proj, dec |-> f.dec, err2 |-> f.err2]
=============================================================================
