------------------------------ MODULE UtilMC ------------------------------
(***************************************************************************)
(* Stand-alone functions: error measures (opinf.post), re-projection        *)
(* (opinf.utils), shift() and scale() (opinf.pre), lstsq_size().            *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS What, Ns, Ks, Seeds
VARIABLES cfg, hist
vars == <<cfg, hist>>

RMat(s, m, n, lo, hi, d) == TLCEval([i \in 1..m |-> [j \in 1..n |-> Rat(Pick(s, i, j, lo, hi), d)]])
AbsPow(x, p) == RPow(RAbs(x), p)

(* ------------------------------- errors ------------------------------- *)
ColPow(M, j, p) == IF p = 0 THEN RMaxOf(TLCEval([i \in 1..Len(M) |-> RAbs(M[i][j])]))      \* p = 0 stands for infinity
                   ELSE RSum(TLCEval([i \in 1..Len(M) |-> AbsPow(M[i][j], p)]))
ColPows(M, p) == TLCEval([j \in 1..NCols(M) |-> ColPow(M, j, p)])
Trapz(f, t) == RSum(TLCEval([j \in 1..(Len(f) - 1) |-> RMul(RMul(<<1, 2>>, RAdd(f[j], f[j + 1])), RSub(t[j + 1], t[j]))]))
LpPow(M, t, p) == IF p = 0 THEN RMaxOf(ColPows(M, 0)) ELSE Trapz(ColPows(M, p), t)
RECURSIVE Cum(_, _)
Cum(d, i) == IF i = 1 THEN d[1] ELSE RAdd(Cum(d, i - 1), d[i])
ErrStep(n, k, s) ==
   LET Q == RMat(s, n, k, -6, 6, 1 + (s % 3))
       A == IF s % 5 = 0 THEN Q ELSE RMatAdd(Q, RMat(s + 1, n, k, -2, 2, 2))
       D == RMatSub(Q, A)
       t == TLCEval([j \in 1..k |-> Cum([i \in 1..k |-> Rat(Pick(s, 3, i, 1, 4), 2)], j)])
       r == 1 + (s % n)
       W == RMat(s + 2, n, r, -1, 1, 1)
       PD == RMatSub(Q, RMatMul(W, RMatMul(T(W), Q)))
       ok == RFrob2(Q)[1] # 0 /\ \A j \in 1..k : ColPow(Q, j, 2)[1] # 0
   IN  [what |-> "errors", ok |-> ok, Q |-> Q, A |-> A, t |-> t, W |-> W,
        fro |-> <<RFrob2(D), RFrob2(Q)>>, proj |-> <<RFrob2(PD), RFrob2(Q)>>,
        lp |-> TLCEval([p \in 1..4 |-> <<ColPows(D, p), ColPows(Q, p)>>]), linf |-> <<ColPows(D, 0), ColPows(Q, 0)>>,
        Lp |-> TLCEval([p \in 1..4 |-> <<LpPow(D, t, p), LpPow(Q, t, p)>>]), Linf |-> <<LpPow(D, t, 0), LpPow(Q, t, 0)>>]

(* ---------------------------- re-projection --------------------------- *)
(* full model  f(x, u) = c + A x + h .* x .* x(reversed) + B u              *)
F(md, x, u) == LET n == Len(x)
                   lin == RMulV(md.A, x)
                   qd == TLCEval([i \in 1..n |-> RMul(md.h[i], RMul(x[i], x[n + 1 - i]))])
                   base == RVAdd(RVAdd(md.c, lin), qd)
               IN IF u = <<>> THEN base ELSE RVAdd(base, RMulV(md.B, u))
RECURSIVE Iter(_, _, _, _, _)
Iter(md, W, U, x, j) ==        \* U: sequence of inputs; returns the remaining reduced trajectory
   IF j > Len(U) THEN <<x>>
   ELSE <<x>> \o Iter(md, W, U, RMulV(T(W), F(md, RMulV(W, x), U[j])), j + 1)
Model(s, n, m) == [A |-> RMat(s, n, n, -1, 1, 1), h |-> RMat(s + 1, 1, n, -1, 1, 2)[1], c |-> RMat(s + 2, 1, n, -2, 2, 1)[1],
                   B |-> RMat(s + 3, n, m, -2, 2, 1)]
(* signed selection of coordinates: orthonormal columns *)
SelBasis(s, n, r) == LET p == Perm(s, n) IN TLCEval([i \in 1..n |-> [j \in 1..r |-> IF p[j] = i THEN I(IF Hash2(s, j) % 2 = 0 THEN 1 ELSE -1) ELSE R0]])
ReprojStep(n, k, s, m) ==
   LET r == 1 + (s % n)
       md == Model(s, n, Max2(m, 1))
       W == IF s % 2 = 0 THEN SelBasis(s, n, r) ELSE RMat(s + 7, n, r, -1, 1, 1)
       x0 == RMat(s + 5, 1, n, -2, 2, 1)[1]
       U == RMat(s + 6, Max2(m, 1), k, -2, 2, 1)
       uc(j) == IF m = 0 THEN <<>> ELSE Col(U, j)
       tr == Iter(md, W, TLCEval([j \in 1..(k - 1) |-> uc(j)]), RMulV(T(W), x0), 1)
       Q == RMat(s + 8, n, k, -3, 3, 1)
       Qr == RMatMul(T(W), Q)
       D == FromCols(TLCEval([j \in 1..k |-> RMulV(T(W), F(md, RMulV(W, Col(Qr, j)), uc(j)))]))
   IN  [what |-> "reproj", ok |-> TRUE, md |-> md, W |-> W, x0 |-> x0, U |-> U, m |-> m, k |-> k,
        disc |-> FromCols(tr), Q |-> Q, Qr |-> Qr, D |-> D]

(* --------------------------- shift and scale -------------------------- *)
ShiftScaleStep(n, k, s) ==
   LET X == RMat(s, n, k, -6, 6, 1 + (s % 2))
       q == RMat(s + 1, 1, n, -4, 4, 2)[1]
       mean == TLCEval([i \in 1..n |-> RMean(X[i])])
       sub(v) == TLCEval([i \in 1..n |-> [j \in 1..k |-> RSub(X[i][j], v[i])]])
       all == Flatten(X)
       from == <<RMinOf(all), RMaxOf(all)>>
       to == << I(Pick(s, 2, 2, -3, 0)), I(Pick(s, 2, 3, 1, 4)) >>
       fr2 == << I(Pick(s, 2, 4, -3, 0)), I(Pick(s, 2, 5, 1, 4)) >>
       scl(fr) == LET a == RDiv(RSub(to[2], to[1]), RSub(fr[2], fr[1])) IN
                  TLCEval([i \in 1..n |-> [j \in 1..k |-> RAdd(to[1], RMul(a, RSub(X[i][j], fr[1])))]])
   IN  [what |-> "shiftscale", ok |-> from[1] # from[2], X |-> X, q |-> q, mean |-> mean, Xq |-> sub(q), Xm |-> sub(mean),
        to |-> to, from |-> from, fr2 |-> fr2, S |-> scl(from), S2 |-> scl(fr2)]

(* ------------------------------ lstsq_size ---------------------------- *)
Binom2(r) == (r * (r + 1)) \div 2
Binom3(r) == (r * (r + 1) * (r + 2)) \div 6
Binom4(r) == (r * (r + 1) * (r + 2) * (r + 3)) \div 24
SizeStep(r, m, s) ==
   LET w(ch) == CASE ch = "c" -> 1 [] ch = "A" -> r [] ch = "H" -> Binom2(r) [] ch = "G" -> Binom3(r) [] ch = "B" -> m
       L == <<"c", "A", "H", "G", "B">>
       keep(i) == (IF i = 5 THEN m > 0 ELSE Hash2(s, i) % 2 = 0)
       fs == SelectSeq(L, LAMBDA ch : keep(CHOOSE i \in 1..5 : L[i] = ch))
       aff == TLCEval([i \in 1..Len(fs) |-> IF Hash2(s + 5, i) % 3 = 0 THEN 1 + (Hash2(s + 6, i) % 4) ELSE 0])   \* 0: not affine
   IN [what |-> "size", ok |-> fs # <<>>, r |-> r, m |-> m, form |-> fs, aff |-> aff,
       d0 |-> ISum([i \in 1..Len(fs) |-> w(fs[i])]),
       d |-> ISum([i \in 1..Len(fs) |-> Max2(1, aff[i]) * w(fs[i])])]

Init == hist = <<>> /\ \E wh \in What, n \in Ns, k \in Ks, s \in Seeds, m \in 0..3 :
            /\ (wh \in {"errors", "shiftscale"} => m = 0)
            /\ cfg = [what |-> wh, n |-> n, k |-> k, s |-> s, m |-> m]
RECURSIVE DeepBad(_)
Out == LET s == cfg.s * 7 + cfg.n * 3 + cfg.k IN
       CASE cfg.what = "errors" -> ErrStep(cfg.n, cfg.k, s)
         [] cfg.what = "reproj" -> ReprojStep(cfg.n, cfg.k, s, cfg.m)
         [] cfg.what = "shiftscale" -> ShiftScaleStep(cfg.n, cfg.k, s)
         [] cfg.what = "size" -> SizeStep(cfg.n, cfg.m, s)
DeepBad(o) == CASE o.what = "errors" -> (\E p \in 1..4 : BadV(o.lp[p][1]) \/ BadV(o.lp[p][2]) \/ BadV(o.Lp[p])) \/ BadV(o.fro) \/ BadV(o.proj)
                [] o.what = "reproj" -> BadM(o.disc) \/ BadM(o.D)
                [] o.what = "shiftscale" -> BadM(o.S) \/ BadM(o.S2) \/ BadM(o.Xm)
                [] OTHER -> FALSE
Next == /\ hist = <<>>
        /\ LET o == TLCEval(Out) IN o.ok /\ ~DeepBad(o) /\ hist' = <<o>>
        /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
(* a projection error with an orthonormal basis is never larger than the data *)
Contraction == (hist # <<>> /\ cfg.what = "reproj" /\ (cfg.s * 7 + cfg.n * 3 + cfg.k) % 2 = 0) =>
    LET o == hist[1] IN RMatMul(T(o.W), o.W) = TLCEval([i \in 1..NCols(o.W) |-> [j \in 1..NCols(o.W) |-> IF i = j THEN R1 ELSE R0]])
Emit == hist # <<>> => PrintT("B@" \o ToJson([cfg |-> cfg, o |-> hist[1]]))
=============================================================================
