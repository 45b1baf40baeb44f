-------------------------------- MODULE Fd --------------------------------
(***************************************************************************)
(* Time-derivative estimation (opinf.ddt).  Every finite difference scheme *)
(* returns, at each of its output columns, the derivative of the           *)
(* polynomial that interpolates the data on the scheme's window of nodes.  *)
(***************************************************************************)
EXTENDS Num

Schemes == <<"fwd1","fwd2","fwd3","fwd4","fwd5","fwd6","bwd1","bwd2","bwd3","bwd4","bwd5","bwd6",
             "ctr2","ctr4","ctr6","ord2","ord4","ord6">>
ModeOf == <<"fwd","fwd","fwd","fwd","fwd","fwd","bwd","bwd","bwd","bwd","bwd","bwd","ctr","ctr","ctr","ord","ord","ord">>
OrderOf == <<1,2,3,4,5,6,1,2,3,4,5,6,2,4,6,2,4,6>>

(* output columns (1-based) for data with k columns *)
OutCols(mode, p, k) ==
   CASE mode = "fwd" -> Range2(1, k - p)
     [] mode = "bwd" -> Range2(p + 1, k)
     [] mode = "ctr" -> Range2(p \div 2 + 1, k - p \div 2)
     [] mode \in {"ord", "non"} -> Range2(1, k)
(* first column of the window used for the derivative at column i *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
WinStart(mode, p, k, i) ==
   CASE mode = "fwd" -> i
     [] mode = "bwd" -> i - p
     [] mode = "ctr" -> i - p \div 2
     [] mode = "ord" -> Clamp(i - p \div 2, 1, k - p)
     [] mode = "non" -> Clamp(i - 1, 1, k - 2)

RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN R1 ELSE RMul(Head(s), RProd(Tail(s)))
Others(w, xs) == SelectSeq(Range2(1, Len(xs)), LAMBDA m : m \notin w)
(* weights of the derivative at node xs[c] of the interpolating polynomial *)
DiffWeights(xs, c) ==
   TLCEval([j \in 1..Len(xs) |->
      IF j = c THEN LET o == Others({c}, xs) IN RSum([m \in 1..Len(o) |-> RInv(RSub(xs[c], xs[o[m]]))])
      ELSE LET o1 == Others({c, j}, xs)  o2 == Others({j}, xs) IN
           RDiv(RProd([m \in 1..Len(o1) |-> RSub(xs[c], xs[o1[m]])]),
                RProd([m \in 1..Len(o2) |-> RSub(xs[j], xs[o2[m]])]))])

(* Q: rational matrix r x k; t: k rational nodes *)
DdtCol(mode, p, Q, t, i) ==
   LET k == Len(t)
       s == WinStart(mode, p, k, i)
       n == IF mode = "non" THEN 3 ELSE p + 1
       w == DiffWeights(SubSeq(t, s, s + n - 1), i - s + 1)
   IN  TLCEval([a \in 1..Len(Q) |-> RDot(w, SubSeq(Q[a], s, s + n - 1))])
Ddt(mode, p, Q, t) ==
   LET oc == OutCols(mode, p, Len(t)) IN
   FromCols(TLCEval([j \in 1..Len(oc) |-> DdtCol(mode, p, Q, t, oc[j])]))
ColsOf(Q, oc) == Cols(Q, oc)

(* polynomials with rational coefficients c (lowest degree first) *)
RECURSIVE Horner(_, _, _)
Horner(c, x, d) == IF d > Len(c) THEN R0 ELSE RAdd(c[d], RMul(x, Horner(c, x, d + 1)))
PolyVal(c, x) == Horner(c, x, 1)
PolyDer(c) == IF Len(c) = 1 THEN <<R0>> ELSE TLCEval([i \in 1..(Len(c) - 1) |-> RMul(I(i), c[i + 1])])
PolyMat(C, t) == TLCEval([a \in 1..Len(C) |-> [j \in 1..Len(t) |-> PolyVal(C[a], t[j])]])
=============================================================================
