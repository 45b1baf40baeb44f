------------------------------ MODULE NumSelf ------------------------------
(* The Java accelerators (spec/java/tlc2/module/Num.java) agree with the     *)
(* TLA+ definitions: D is the same module text under the name NumDef, which  *)
(* has no accelerator.                                                       *)
EXTENDS Num
CONSTANTS N
D == INSTANCE NumDef
VARIABLE s
Init == s = 0
Next == s < N /\ s' = s + 1
Spec == Init /\ [][Next]_s
Q(k) == Rat(Pick(s, k, 1, -40, 40), Pick(s, k, 2, -3, 9))
QV(k, n) == TLCEval([i \in 1..n |-> Q(k * 17 + i)])
QM(k, m, n) == TLCEval([i \in 1..m |-> QV(k * 13 + i, n)])
A == RandMat(s, 3, 3, -4, 4)
B == RandMat(s + 1, 3, 2, -4, 4)
M4 == RandMat(s + 2, 4, 4, -3, 3)
ok(x, y) == IF x = y THEN TRUE ELSE Print(<<"DIFFERENT", s, x, y>>, FALSE)
Same ==
  LET a == Q(1) b == Q(2) u == QV(3, 4) v == QV(4, 4) P == QM(5, 2, 3) R == QM(6, 3, 2)
      x == Pick(s, 9, 9, -30000, 30000) y == Pick(s, 8, 8, 0, 5000) IN
  /\ ok(GCD(Abs(x), y), D!GCD(Abs(x), y)) /\ ok(IPow(x % 13, y % 6), D!IPow(x % 13, y % 6))
  /\ ok(ISqrt(y), D!ISqrt(y)) /\ ok(ISqrt(x * 50000), D!ISqrt(x * 50000)) /\ ok(SumTo(A[1], 3), D!SumTo(A[1], 3)) /\ ok(Rat(x, y - 2000), D!Rat(x, y - 2000))
  /\ ok(I(x * 2), D!I(x * 2)) /\ ok(RNeg(a), D!RNeg(a)) /\ ok(RAdd(a, b), D!RAdd(a, b)) /\ ok(RSub(a, b), D!RSub(a, b))
  /\ ok(RMul(a, b), D!RMul(a, b)) /\ ok(RInv(a), D!RInv(a)) /\ ok(RDiv(a, b), D!RDiv(a, b)) /\ ok(RLt(a, b), D!RLt(a, b)) /\ ok(RLe(a, b), D!RLe(a, b))
  /\ ok(RPow(a, (y % 5) - 2), D!RPow(a, (y % 5) - 2)) /\ ok(RSumTo(u, 4), D!RSumTo(u, 4)) /\ ok(RSumTo(u, 0), D!RSumTo(u, 0)) /\ ok(RMaxTo(u, 4), D!RMaxTo(u, 4)) /\ ok(RMinTo(u, 4), D!RMinTo(u, 4))
  /\ ok(BadV(u), D!BadV(u)) /\ ok(BadM(P), D!BadM(P)) /\ ok(T(P), D!T(P)) /\ ok(FromCols(P), D!FromCols(P)) /\ ok(Flatten(P), D!Flatten(P))
  /\ ok(IDot(A[1], A[2]), D!IDot(A[1], A[2])) /\ ok(IMulV(A, A[1]), D!IMulV(A, A[1])) /\ ok(IMul(A, B), D!IMul(A, B))
  /\ ok(RDot(u, v), D!RDot(u, v)) /\ ok(RMulV(P, R[1] \o <<a>>), D!RMulV(P, R[1] \o <<a>>)) /\ ok(RMatMul(P, R), D!RMatMul(P, R))
  /\ ok(RMatAdd(P, P), D!RMatAdd(P, P)) /\ ok(RMatSub(P, QM(7, 2, 3)), D!RMatSub(P, QM(7, 2, 3))) /\ ok(RMatScale(a, P), D!RMatScale(a, P))
  /\ ok(RVAdd(u, v), D!RVAdd(u, v)) /\ ok(RVSub(u, v), D!RVSub(u, v)) /\ ok(RVScale(a, v), D!RVScale(a, v))
  /\ ok(Det(A), D!Det(A)) /\ ok(Det(M4), D!Det(M4)) /\ (Det(A) # 0 => ok(IInv(A), D!IInv(A)) /\ ok(RSolve(ToR(A), ToR(B)), D!RSolve(ToR(A), ToR(B))))
  /\ ok(RankLB(HCat(A, B)), D!RankLB(HCat(A, B))) /\ ok(RankLB(IMul(B, T(B))), D!RankLB(IMul(B, T(B)))) /\ ok(Hash2(s, x), D!Hash2(s, x)) /\ ok(Hash3(s, y, 5), D!Hash3(s, y, 5))
  /\ ok(Pick(s, y, 3, -7, 9), D!Pick(s, y, 3, -7, 9)) /\ ok(RandMat(s + y, 2, 3, -5, 5), D!RandMat(s + y, 2, 3, -5, 5)) /\ ok(RandVec(s, 5, -3, 3), D!RandVec(s, 5, -3, 3))
  /\ ok(ToR(A), D!ToR(A))
=============================================================================
