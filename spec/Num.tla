------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* Exact arithmetic shared by every specification in this directory:       *)
(* integers, rationals <<n, d>> (d > 0, lowest terms), vectors, matrices   *)
(* (sequences of rows), exact linear solves, and a deterministic generator *)
(* of small integer data from a seed.  TLC reports 32-bit overflow as an   *)
(* error, so a wrong value can never be produced silently.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN 1 ELSE x * IPow(x, k - 1)

RECURSIVE SumTo(_, _)                       \* f[1] + ... + f[k]   (integers)
SumTo(f, k) == IF k = 0 THEN 0 ELSE SumTo(f, k - 1) + f[k]
ISum(f) == LET g == TLCEval(f) IN SumTo(g, Len(g))

RECURSIVE SumBetween(_, _, _)               \* sums on a balanced tree
SumBetween(f, a, b) == IF a > b THEN 0 ELSE IF a = b THEN f[a]
    ELSE LET m == (a + b) \div 2 IN SumBetween(f, a, m) + SumBetween(f, m + 1, b)

(* integer square root (floor), by bisection *)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m - 1)
ISqrt(n) == ISqrtB(n, 0, Min2(n, 46340))
IsSquare(n) == n >= 0 /\ ISqrt(n) * ISqrt(n) = n

----------------------------------------------------------------------------
(* Rationals <<n, d>>, d > 0, lowest terms.  Arithmetic is total: a result   *)
(* that is undefined (division by zero) or whose terms exceed LIM is Bad,    *)
(* and Bad is absorbing; specifications discard data that leads to Bad.      *)
LIM == 1000000000
Bad == <<0, 0>>
IsBad(a) == a[2] = 0
Rat(n, d) == IF d = 0 THEN Bad ELSE
             LET s == IF d < 0 THEN -1 ELSE 1
                 g == GCD(Abs(n), Abs(d))
                 nn == s * (n \div g)  dd == s * (d \div g)
             IN  IF nn > LIM \/ nn < -LIM \/ dd > LIM THEN Bad ELSE <<nn, dd>>
I(n) == IF n > LIM \/ n < -LIM THEN Bad ELSE <<n, 1>>
R0 == <<0, 1>>
R1 == <<1, 1>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == IF a[2] = 1 /\ b[2] = 1 THEN I(a[1] + b[1])
              ELSE IF a[2] = 0 \/ b[2] = 0 THEN Bad
              ELSE LET g == GCD(a[2], b[2])
                       e == b[2] \div g  f == a[2] \div g IN
                   IF a[2] > 1000000000 \div e THEN Bad
                   ELSE Rat(a[1] * e + b[1] * f, a[2] * e)
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Bad ELSE
              LET g1 == Max2(GCD(Abs(a[1]), b[2]), 1)
                  g2 == Max2(GCD(Abs(b[1]), a[2]), 1)
              IN  Rat((a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1))
RInv(a) == IF a[1] = 0 \/ a[2] = 0 THEN Bad ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
BadV(v) == \E i \in 1..Len(v) : IsBad(v[i])
BadM(M) == \E i \in 1..Len(M) : BadV(M[i])
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RAbs(a) == <<Abs(a[1]), a[2]>>
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RIsZero(a) == a[1] = 0
RIsSquare(a) == a[2] # 0 /\ IsSquare(a[1]) /\ IsSquare(a[2])
(* square root; Bad when it is not rational *)
RSqrt(a) == IF RIsSquare(a) THEN <<ISqrt(a[1]), ISqrt(a[2])>> ELSE Bad
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN R1 ELSE IF k < 0 THEN RInv(RPow(a, -k)) ELSE RMul(a, RPow(a, k - 1))

RECURSIVE RSumTo(_, _)
RSumTo(f, k) == IF k = 0 THEN R0 ELSE IF k = 1 THEN f[1] ELSE RAdd(RSumTo(f, k - 1), f[k])
RSum(f) == LET g == TLCEval(f) IN RSumTo(g, Len(g))
RECURSIVE RMaxTo(_, _)
RMaxTo(f, k) == IF k = 1 THEN f[1] ELSE RMax(RMaxTo(f, k - 1), f[k])
RMaxOf(f) == LET g == TLCEval(f) IN RMaxTo(g, Len(g))
RECURSIVE RMinTo(_, _)
RMinTo(f, k) == IF k = 1 THEN f[1] ELSE RMin(RMinTo(f, k - 1), f[k])
RMinOf(f) == LET g == TLCEval(f) IN RMinTo(g, Len(g))
RMean(f) == RDiv(RSum(f), I(Len(f)))

----------------------------------------------------------------------------
(* Vectors and matrices: a matrix is a sequence of rows.                    *)
NRows(M) == Len(M)
NCols(M) == Len(M[1])
Col(M, j) == TLCEval([i \in 1..Len(M) |-> M[i][j]])
FromCols(C) == TLCEval([i \in 1..Len(C[1]) |-> [j \in 1..Len(C) |-> C[j][i]]])
T(M) == TLCEval([j \in 1..NCols(M) |-> [i \in 1..NRows(M) |-> M[i][j]]])
Rows(M, locs) == TLCEval([i \in 1..Len(locs) |-> M[locs[i]]])
Cols(M, js) == TLCEval([i \in 1..NRows(M) |-> [j \in 1..Len(js) |-> M[i][js[j]]]])
HCat(A, B) == TLCEval([i \in 1..NRows(A) |-> A[i] \o B[i]])
RECURSIVE HCatAll(_)
HCatAll(Ms) == IF Len(Ms) = 1 THEN Ms[1] ELSE HCat(Ms[1], HCatAll(Tail(Ms)))
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
VCatAll(Ms) == Flatten(Ms)
Range2(a, b) == TLCEval([i \in 1..Max2(0, b - a + 1) |-> a + i - 1])
RevSeq(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])

(* integer matrices *)
IDot(u, v) == LET f == TLCEval([i \in 1..Len(u) |-> u[i] * v[i]]) IN SumTo(f, Len(u))
IMulV(A, x) == TLCEval([i \in 1..Len(A) |-> IDot(A[i], x)])
IMul(A, B) == LET BT == T(B) IN TLCEval([i \in 1..NRows(A) |-> [j \in 1..Len(BT) |-> IDot(A[i], BT[j])]])
IAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> A[i][j] + B[i][j]]])
ISub(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> A[i][j] - B[i][j]]])
IScale(s, A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> s * A[i][j]]])
IVAdd(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] + v[i]])
IVSub(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] - v[i]])
IEye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]])
IZero(m, n) == TLCEval([i \in 1..m |-> [j \in 1..n |-> 0]])
OnesV(n) == TLCEval([i \in 1..n |-> 1])

(* rational matrices *)
ToR(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> I(M[i][j])]])
ToRV(v) == TLCEval([i \in 1..Len(v) |-> I(v[i])])
RDot(u, v) == LET f == TLCEval([i \in 1..Len(u) |-> RMul(u[i], v[i])]) IN RSumTo(f, Len(u))
RMulV(A, x) == TLCEval([i \in 1..Len(A) |-> RDot(A[i], x)])
RMatMul(A, B) == LET BT == T(B) IN TLCEval([i \in 1..NRows(A) |-> [j \in 1..Len(BT) |-> RDot(A[i], BT[j])]])
RMatAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RAdd(A[i][j], B[i][j])]])
RMatSub(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RSub(A[i][j], B[i][j])]])
RMatScale(s, A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RMul(s, A[i][j])]])
RVAdd(u, v) == TLCEval([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
RVSub(u, v) == TLCEval([i \in 1..Len(u) |-> RSub(u[i], v[i])])
RVScale(s, v) == TLCEval([i \in 1..Len(v) |-> RMul(s, v[i])])
RFrob2(M) == RSum([i \in 1..Len(M) |-> RSum([j \in 1..Len(M[i]) |-> RMul(M[i][j], M[i][j])])])
RNorm2V(v) == RSum([i \in 1..Len(v) |-> RMul(v[i], v[i])])

(* exact inverse / solve by Cramer's rule over the integers (n <= 4)        *)
Minor(M, i, j) == TLCEval([r \in 1..(Len(M) - 1) |-> [c \in 1..(Len(M) - 1) |->
                     M[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]])
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE IF Len(M) = 2 THEN M[1][1] * M[2][2] - M[1][2] * M[2][1]
          ELSE ISum([j \in 1..Len(M) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j))])
Adj(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M) |->
             (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(M, j, i))]])
IInv(M) == LET d == Det(M)  A == Adj(M) IN
           [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> Rat(A[i][j], d)]]

(* Gaussian elimination over the rationals: solves A X = B, A square.       *)
RECURSIVE GaussSolveR(_, _, _)
GaussSolveR(A, B, k) ==          \* columns 1..k-1 already eliminated (Gauss-Jordan)
   LET n == Len(A) IN
   IF k > n THEN B
   ELSE LET p  == CHOOSE i \in k..n : A[i][k][1] # 0
            sw(M) == [i \in 1..n |-> IF i = k THEN M[p] ELSE IF i = p THEN M[k] ELSE M[i]]
            A1 == sw(A)  B1 == sw(B)
            pv == RInv(A1[k][k])
            ak == RVScale(pv, A1[k])  bk == RVScale(pv, B1[k])
            el(row, base, f) == IF f[1] = 0 /\ f[2] # 0 THEN row ELSE RVSub(row, RVScale(f, base))
        IN  GaussSolveR(TLCEval([i \in 1..n |-> IF i = k THEN ak ELSE el(A1[i], ak, A1[i][k])]),
                        TLCEval([i \in 1..n |-> IF i = k THEN bk ELSE el(B1[i], bk, A1[i][k])]), k + 1)
RSolve(A, B) == GaussSolveR(A, B, 1)
RInvM(A) == RSolve(A, [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN R1 ELSE R0]])

(* rank of an integer matrix modulo a prime: a lower bound of the true rank *)
P0 == 30011
RECURSIVE ModPow(_, _)
ModPow(a, e) == IF e = 0 THEN 1 ELSE LET h == ModPow((a * a) % P0, e \div 2) IN
                IF e % 2 = 1 THEN (a * h) % P0 ELSE h
ModInv(a) == ModPow(a, P0 - 2)
RECURSIVE ModRankR(_, _, _, _)
ModRankR(M, r, c, nc) ==        \* M: rows mod P0; r pivots found; next column c
   IF c > nc \/ r >= Len(M) THEN r
   ELSE LET cand == {i \in (r + 1)..Len(M) : M[i][c] # 0} IN
        IF cand = {} THEN ModRankR(M, r, c + 1, nc)
        ELSE LET p == CHOOSE i \in cand : TRUE
                 M1 == TLCEval([i \in 1..Len(M) |-> IF i = r + 1 THEN M[p] ELSE IF i = p THEN M[r + 1] ELSE M[i]])
                 iv == ModInv(M1[r + 1][c])
                 M2 == TLCEval([i \in 1..Len(M) |-> IF i <= r + 1 \/ M1[i][c] = 0 THEN M1[i]
                          ELSE LET f == (M1[i][c] * iv) % P0 IN
                               [j \in 1..nc |-> (M1[i][j] - f * M1[r + 1][j]) % P0]])
             IN ModRankR(M2, r + 1, c + 1, nc)
RankLB(M) == ModRankR(TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> M[i][j] % P0]]), 0, 1, NCols(M))

----------------------------------------------------------------------------
(* Deterministic pseudo-random small integers.                              *)
Mix(a) == LET b == (a * 1103 + 12345) % 32749 IN ((b * b) + 7919 * (b \div 128)) % 32749
Hash2(s, i) == Mix((Mix(s % 32749) + i * 7919) % 32749)
Hash3(s, i, j) == Mix((Hash2(s, i) + j * 6007) % 32749)
(* integers in lo..hi *)
Pick(s, i, j, lo, hi) == lo + ((Hash3(s, i, j) \div 7) % (hi - lo + 1))
RandMat(s, m, n, lo, hi) == TLCEval([i \in 1..m |-> [j \in 1..n |-> Pick(s, i, j, lo, hi)]])
RandVec(s, n, lo, hi) == TLCEval([i \in 1..n |-> Pick(s, 97, i, lo, hi)])
(* a permutation of 1..n picked by a seed (Fisher-Yates by selection) *)
RECURSIVE PermR(_, _, _)
PermR(s, left, acc) == IF left = <<>> THEN acc
   ELSE LET k == 1 + ((Hash2(s, Len(left)) \div 5) % Len(left))
        IN PermR(s + 1, TLCEval([i \in 1..(Len(left) - 1) |-> IF i < k THEN left[i] ELSE left[i + 1]]), Append(acc, left[k]))
Perm(s, n) == TLCEval(PermR(s, [i \in 1..n |-> i], <<>>))
=============================================================================
