------------------------------- MODULE Orth -------------------------------
(***************************************************************************)
(* Exact rational orthogonal matrices and matrices with a prescribed       *)
(* singular value decomposition.                                           *)
(***************************************************************************)
EXTENDS Num

(* Householder reflection I - 2 v v' / (v'v) for an integer vector v # 0    *)
House(v) == LET n == Len(v)  q == IDot(v, v) IN
   TLCEval([i \in 1..n |-> [j \in 1..n |-> RSub(IF i = j THEN R1 ELSE R0, Rat(2 * v[i] * v[j], q))]])
REyeM(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]])
NonZero(v) == IF \A i \in 1..Len(v) : v[i] = 0 THEN [v EXCEPT ![1] = 1] ELSE v
(* reflection acting on the coordinates sel of 1..n only (sel: sequence)    *)
HouseOn(n, sel, v) == LET H == House(v)
      pos(i) == IF \E k \in 1..Len(sel) : sel[k] = i THEN CHOOSE k \in 1..Len(sel) : sel[k] = i ELSE 0
      P == TLCEval([i \in 1..n |-> pos(i)]) IN
   TLCEval([i \in 1..n |-> [j \in 1..n |-> IF P[i] = 0 \/ P[j] = 0 THEN (IF i = j THEN R1 ELSE R0) ELSE H[P[i]][P[j]]]])
(* products of reflections acting on at most four coordinates each, so that *)
(* denominators stay small                                                  *)
RECURSIVE OrthR(_, _, _, _)
OrthR(s, n, M, k) == IF k = 0 THEN M
   ELSE LET w == Min2(4, n)
            sel == TLCEval(SubSeq(Perm(s + k * 5, n), 1, w))
            v == NonZero(RandVec(s * 3 + k * 11, w, -2, 2))
        IN OrthR(s, n, RMatMul(HouseOn(n, sel, v), M), k - 1)
Orth(s, n, k) == OrthR(s, n, REyeM(n), k)
IsOrth(M) == RMatMul(T(M), M) = REyeM(NCols(M))
FirstCols(M, k) == Cols(M, Range2(1, k))
RDiag(v) == TLCEval([i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE R0]])
(* U diag(s) V' *)
FromSVD(U, s, V) == RMatMul(RMatMul(U, RDiag(s)), T(V))
(* strictly decreasing positive integer singular values with clear gaps     *)
RECURSIVE SvalsR(_, _, _)
SvalsR(s, k, acc) == IF k = 0 THEN acc
   ELSE SvalsR(s, k - 1, <<I((IF acc = <<>> THEN 0 ELSE acc[1][1]) + Pick(s, k, 5, 1, 3))>> \o acc)
Svals(s, k) == SvalsR(s, k, <<>>)
=============================================================================
