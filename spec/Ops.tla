------------------------------- MODULE Ops -------------------------------
(***************************************************************************)
(* Nonparametric operators, as documented: what each operator type means   *)
(* as a polynomial of the state q (length r) and the input u (length m).   *)
(* Meaning is given by the *full* Kronecker tensor, the definition in the  *)
(* user documentation; the compressed representation is derived from it.   *)
(* Integer arithmetic only.                                                *)
(***************************************************************************)
EXTENDS Num

Types == {"c", "A", "H", "G", "Q", "B", "N"}
Degree(t) == CASE t = "c" -> 0 [] t = "A" -> 1 [] t = "H" -> 2 [] t = "G" -> 3
               [] t = "Q" -> 4 [] t = "B" -> 0 [] t = "N" -> 1
NeedsInput(t) == t \in {"B", "N"}
IsPoly(t) == t \in {"c", "A", "H", "G", "Q"}

(* all index tuples (i1,...,ip) of the Kronecker product, in order          *)
RECURSIVE FullIdx(_, _)
FullIdx(p, r) == IF p = 0 THEN << <<>> >>
   ELSE LET sub == FullIdx(p - 1, r) IN
        TLCEval(Flatten([i \in 1..r |-> [k \in 1..Len(sub) |-> <<i>> \o sub[k]]]))
(* non-redundant (non-increasing) index tuples, in the documented order     *)
RECURSIVE MonoIdx(_, _)
MonoIdx(p, r) == IF p = 0 THEN << <<>> >>
   ELSE TLCEval(Flatten([i \in 1..r |-> LET sub == MonoIdx(p - 1, i) IN [k \in 1..Len(sub) |-> <<i>> \o sub[k]]]))

RECURSIVE ProdIdx(_, _)
ProdIdx(q, idx) == IF idx = <<>> THEN 1 ELSE q[Head(idx)] * ProdIdx(q, Tail(idx))
(* d/dq_l of prod_k q[idx_k] *)
DropAt(idx, k) == [j \in 1..(Len(idx) - 1) |-> IF j < k THEN idx[j] ELSE idx[j + 1]]
DProd(q, idx, l) == ISum([k \in 1..Len(idx) |-> IF idx[k] = l THEN ProdIdx(q, DropAt(idx, k)) ELSE 0])

Kron(u, q) == TLCEval(Flatten([i \in 1..Len(u) |-> [j \in 1..Len(q) |-> u[i] * q[j]]]))

Binom(n, k) == LET RECURSIVE f(_, _)
                   f(a, b) == IF b = 0 THEN 1 ELSE (f(a, b - 1) * (a - b + 1)) \div b
               IN f(n, k)
OpDim(t, r, m) == CASE t = "B" -> m [] t = "N" -> r * m
                    [] OTHER -> Binom(r + Degree(t) - 1, Degree(t))

(* data block column of one (q, u) in the documented non-redundant order    *)
PolyBlock(p, q) == LET ix == MonoIdx(p, Len(q)) IN TLCEval([k \in 1..Len(ix) |-> ProdIdx(q, ix[k])])
Block(t, q, u) == CASE t = "B" -> u [] t = "N" -> Kron(u, q) [] OTHER -> PolyBlock(Degree(t), q)
FullBlock(p, q) == LET ix == FullIdx(p, Len(q)) IN TLCEval([k \in 1..Len(ix) |-> ProdIdx(q, ix[k])])

(* sorted (non-increasing) version of an index tuple, and compression       *)
RECURSIVE InsertDesc(_, _)
InsertDesc(x, s) == IF s = <<>> THEN <<x>> ELSE IF x >= Head(s) THEN <<x>> \o s
                    ELSE <<Head(s)>> \o InsertDesc(x, Tail(s))
RECURSIVE SortDesc(_)
SortDesc(s) == IF s = <<>> THEN <<>> ELSE InsertDesc(Head(s), SortDesc(Tail(s)))
Compress(p, r, F) ==            \* F: rows over FullIdx(p, r) -> rows over MonoIdx(p, r)
   LET full == FullIdx(p, r)  mono == MonoIdx(p, r)
       sorted == TLCEval([k \in 1..Len(full) |-> SortDesc(full[k])])
   IN  TLCEval([i \in 1..Len(F) |-> [c \in 1..Len(mono) |->
          ISum([k \in 1..Len(full) |-> IF sorted[k] = mono[c] THEN F[i][k] ELSE 0])]])

(* An operator value: [t, r, m, E] with E over the non-redundant basis.     *)
Apply(op, q, u) == IMulV(op.E, Block(op.t, q, u))
ApplyCols(op, Q, U) ==          \* batch: U is <<>> when there is no input
   FromCols(TLCEval([j \in 1..NCols(Q) |-> Apply(op, Col(Q, j), IF U = <<>> THEN <<>> ELSE Col(U, j))]))
(* Jacobian with respect to the state *)
DBlock(t, q, u, l) ==
   CASE t = "B" -> TLCEval([k \in 1..Len(u) |-> 0])
     [] t = "N" -> TLCEval(Flatten([i \in 1..Len(u) |-> [j \in 1..Len(q) |-> IF j = l THEN u[i] ELSE 0]]))
     [] OTHER -> LET ix == MonoIdx(Degree(t), Len(q)) IN TLCEval([k \in 1..Len(ix) |-> DProd(q, ix[k], l)])
Jac(op, q, u) == T(TLCEval([l \in 1..Len(q) |-> IMulV(op.E, DBlock(op.t, q, u, l))]))

(* Petrov-Galerkin projection, by what it must do to a reduced state z:     *)
(* (W'V)^{-1} W' F(V z, u)   -- a rational vector                           *)
PGApply(op, V, W, z, u) ==
   LET full == Apply(op, IMulV(V, z), u)
       WT == T(W)
   IN  RMulV(IInv(IMul(WT, V)), ToRV(IMulV(WT, full)))
PGJac(op, V, W, z, u) ==
   LET J == Jac(op, IMulV(V, z), u)
       WT == T(W)
   IN  RMatMul(IInv(IMul(WT, V)), ToR(IMul(WT, IMul(J, V))))

(* a multi-operator right-hand side *)
RhsOf(ops, q, u) == LET RECURSIVE f(_)
                        f(k) == IF k = 0 THEN [i \in 1..Len(q) |-> 0]
                                ELSE IVAdd(f(k - 1), Apply(ops[k], q, IF NeedsInput(ops[k].t) THEN u ELSE <<>>))
                    IN f(Len(ops))
RhsJac(ops, q, u) == LET RECURSIVE f(_)
                         f(k) == IF k = 0 THEN IZero(Len(q), Len(q))
                                 ELSE IAdd(f(k - 1), Jac(ops[k], q, IF NeedsInput(ops[k].t) THEN u ELSE <<>>))
                     IN f(Len(ops))
RandOp(t, r, m, s) == [t |-> t, r |-> r, m |-> m,
                       E |-> RandMat(s, r, OpDim(t, r, m), -2, 2)]
=============================================================================
