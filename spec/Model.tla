------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* Dynamical-systems models  q' = F(q, u)  or  q_{j+1} = F(q_j, u_j)  with *)
(* F the sum of operators (Ops.tla).  What a model evaluates, how it steps *)
(* forward, what solves its initial value problem, and which regression    *)
(* its unknown operators come from.                                        *)
(***************************************************************************)
EXTENDS Ops

HasInputs(ops) == \E i \in 1..Len(ops) : NeedsInput(ops[i].t)

(*--------------------------- discrete stepping ---------------------------*)
InRange(v, lim) == \A i \in 1..Len(v) : v[i] <= lim /\ v[i] >= -lim
RECURSIVE StepsR(_, _, _, _, _)
StepsR(ops, U, acc, k, lim) ==       \* stops early when a state leaves [-lim, lim]
   IF Len(acc) >= k THEN acc
   ELSE LET q == RhsOf(ops, acc[Len(acc)], IF U = <<>> THEN <<>> ELSE Col(U, Len(acc)))
        IN  IF InRange(q, lim) THEN StepsR(ops, U, Append(acc, q), k, lim) ELSE acc
Trajectory(ops, q0, U, k, lim) == StepsR(ops, U, <<q0>>, k, lim)      \* sequence of states

(*------------- polynomials in time: coefficient sequences ----------------*)
PTrim(p) == p
PAt(p, i) == IF i <= Len(p) THEN p[i] ELSE R0
PAdd(p, q) == TLCEval([i \in 1..Max2(Len(p), Len(q)) |-> RAdd(PAt(p, i), PAt(q, i))])
PScale(s, p) == RVScale(s, p)
PMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>> ELSE
   TLCEval([n \in 1..(Len(p) + Len(q) - 1) |->
      RSum([i \in 1..Len(p) |-> IF n - i + 1 >= 1 /\ n - i + 1 <= Len(q) THEN RMul(p[i], q[n - i + 1]) ELSE R0])])
PInt(p, c0) == <<c0>> \o TLCEval([i \in 1..Len(p) |-> RDiv(p[i], I(i))])
PDer(p) == TLCEval([i \in 1..Max2(0, Len(p) - 1) |-> RMul(I(i), p[i + 1])])
RECURSIVE PEvalR(_, _, _)
PEvalR(p, x, k) == IF k > Len(p) THEN R0 ELSE RAdd(p[k], RMul(x, PEvalR(p, x, k + 1)))
PEval(p, x) == PEvalR(p, x, 1)
RECURSIVE PProd(_, _)
PProd(ps, idx) == IF idx = <<>> THEN <<R1>> ELSE PMul(ps[Head(idx)], PProd(ps, Tail(idx)))

(* The data block entries of an operator on polynomial states/inputs, and   *)
(* the largest state index each depends on                                  *)
ColIdx(t, r, m) == CASE t = "B" -> [k \in 1..m |-> [u |-> k, q |-> <<>>]]
   [] t = "N" -> [k \in 1..(r * m) |-> [u |-> 1 + (k - 1) \div r, q |-> <<1 + ((k - 1) % r)>>]]
   [] OTHER -> LET ix == MonoIdx(Degree(t), r) IN [k \in 1..Len(ix) |-> [u |-> 0, q |-> ix[k]]]
MaxQ(c) == IF c.q = <<>> THEN 0 ELSE c.q[1]        \* indices are non-increasing
(* keep only the entries that make row i depend on states < i               *)
Triangular(op) == LET ci == ColIdx(op.t, op.r, op.m) IN
   [op EXCEPT !.E = TLCEval([i \in 1..op.r |-> [k \in 1..Len(ci) |-> IF MaxQ(ci[k]) < i THEN op.E[i][k] ELSE 0]])]
RECURSIVE PTerm(_, _, _, _, _)
PTerm(E, ci, ps, us, k) ==       \* sum over columns 1..k of E[k] * column polynomial
   IF k = 0 THEN <<>> ELSE
   LET rest == PTerm(E, ci, ps, us, k - 1) IN
   IF E[k] = 0 THEN rest
   ELSE LET c == ci[k]
            base == PProd(ps, c.q)
            full == IF c.u = 0 THEN base ELSE PMul(us[c.u], base)
        IN PAdd(rest, PScale(I(E[k]), full))
RowPoly(ops, i, ps, us) ==
   LET RECURSIVE f(_)
       f(k) == IF k = 0 THEN <<>> ELSE PAdd(f(k - 1), PTerm(ops[k].E[i], ColIdx(ops[k].t, ops[k].r, ops[k].m), ps, us, Len(ops[k].E[i])))
   IN f(Len(ops))
(* exact solution of the triangular initial value problem, row by row       *)
RECURSIVE SolveTri(_, _, _, _)
SolveTri(ops, q0, us, ps) ==
   LET i == Len(ps) + 1 IN
   IF i > Len(q0) THEN ps
   ELSE SolveTri(ops, q0, us, Append(ps, TLCEval(PInt(RowPoly(ops, i, ps, us), I(q0[i])))))
BadPolys(ps) == \E i \in 1..Len(ps) : BadV(ps[i])

(*------------------------------ regression -------------------------------*)
DataRow(ops, q, u) == Flatten([k \in 1..Len(ops) |-> Block(ops[k].t, q, IF NeedsInput(ops[k].t) THEN u ELSE <<>>)])
DataMatrix(ops, Q, U) == TLCEval([j \in 1..NCols(Q) |-> DataRow(ops, Col(Q, j), IF U = <<>> THEN <<>> ELSE Col(U, j))])
DataDim(ops, r, m) == ISum([k \in 1..Len(ops) |-> OpDim(ops[k].t, r, m)])
OpMatrix(ops) == HCatAll([k \in 1..Len(ops) |-> ops[k].E])
LhsOf(ops, Q, U) == FromCols([j \in 1..NCols(Q) |-> RhsOf(ops, Col(Q, j), IF U = <<>> THEN <<>> ELSE Col(U, j))])
(* the regression for the unknown operators: data matrix of those, and the  *)
(* left-hand side minus the contribution of the known ones                   *)
Select(ops, known, want) == LET ix == SelectSeq(Range2(1, Len(ops)), LAMBDA i : known[i] = want)
                            IN [k \in 1..Len(ix) |-> ops[ix[k]]]
RhsK(ops, Q, U) == IF ops = <<>> THEN IZero(NRows(Q), NCols(Q)) ELSE LhsOf(ops, Q, U)
=============================================================================
