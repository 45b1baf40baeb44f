----------------------------- MODULE RomExactMC -----------------------------
(***************************************************************************)
(* Exact recovery, end to end.  The full states live in the range of an    *)
(* integer matrix V0 (n x r), q = V0 z, and z follows a polynomial model   *)
(* with operators E (possibly affine in a parameter, E = E0 + mu E1).      *)
(* A ROM trained on enough such data with any affine transformer, a basis  *)
(* of dimension r, and operators of the same (downward closed) form must   *)
(* predict every new trajectory exactly.  The training data are either     *)
(* trajectories without left-hand sides or arbitrary states with exact     *)
(* left-hand sides, in several pieces.                                     *)
(***************************************************************************)
EXTENDS Model, Json
CONSTANTS Forms, Kinds, Rs, Ns, Ms, Tfs, Modes, Seeds, Stride
VARIABLES cfg, done
vars == <<cfg, done>>

NeedIn(f) == \E k \in 1..Len(f) : NeedsInput(f[k])
HasConst(f) == \E k \in 1..Len(f) : f[k] = "c"
HasQuad(f) == \E k \in 1..Len(f) : f[k] \in {"H", "N"}
(* which transformers keep the form: centering needs c (and A below H, B     *)
(* below N); scalings keep any form                                           *)
Closed(f, tf) == tf \in {0, 1, 2} \/ HasConst(f)
Init == \E f \in Forms : \E kd \in Kinds : \E r \in Rs : \E n \in Ns : \E m \in Ms : \E tf \in Tfs : \E md \in Modes : \E s \in Seeds :
   /\ (m > 0) = NeedIn(f)
   /\ n >= r /\ Closed(f, tf)
   /\ ((Hash2(Hash2(Hash2(s, tf + 7 * r), n + 5 * m), Len(f) * 3 + Len(md) + (IF kd = "c" THEN 50 ELSE 0)) \div 7) % Stride = 0) = TRUE
   /\ cfg = [f |-> f, kd |-> kd, r |-> r, n |-> n, m |-> m, tf |-> tf, md |-> md, s |-> s]
   /\ done = <<>>

Sd == cfg.s * 97 + cfg.r * 7 + cfg.n + cfg.m + Len(cfg.f) * 3 + cfg.tf
Par == cfg.md \in {"affine", "interp"}
Mus == IF Par THEN <<1, 2, 4>> ELSE <<0>>
TestMu == IF ~Par THEN 0 ELSE IF cfg.s % 2 = 0 THEN 3 ELSE 2
(* parameter dependence sits in the first operator only                      *)
BaseOps(j) == [k \in 1..Len(cfg.f) |-> LET op == RandOp(cfg.f[k], cfg.r, IF NeedsInput(cfg.f[k]) THEN cfg.m ELSE 0, Sd * 31 + k * 7 + j * 1009) IN
    [op EXCEPT !.E = TLCEval([a \in 1..Len(op.E) |-> [b \in 1..Len(op.E[a]) |-> IF Pick(Sd + k + j, a, b, 0, 2) = 0 THEN 0 ELSE Sgn(op.E[a][b])]])]]
Shape(op) == IF cfg.kd = "c" THEN Triangular(op) ELSE op
OpsAt(mu, j) == LET o0 == BaseOps(j)  d == BaseOps(j + 50) IN
   TLCEval([k \in 1..Len(o0) |-> Shape(IF k = 1 /\ Par THEN [o0[k] EXCEPT !.E = IAdd(o0[k].E, IScale(mu, d[k].E))] ELSE o0[k])])
V0 == LET c(j) == RandMat(Sd * 3 + j, cfg.n, cfg.r, -2, 2)
          k == CHOOSE j \in 0..60 : RankLB(T(c(j))) = cfg.r /\ \A i \in 0..(j - 1) : RankLB(T(c(i))) # cfg.r IN c(k)
(* regression data of one piece: states, left-hand sides or <<>>, inputs     *)
Given == cfg.md = "lhs" \/ cfg.kd = "c"
K == 5
MixP == 1 + (cfg.s % 2)
Piece(mu, i, j) ==
   LET ops == OpsAt(mu, j)  s == Sd * 11 + i * 17 + mu * 101 + j * 7 IN
   IF Given THEN LET k == 3 + DataDim(ops, cfg.r, cfg.m) \div 2 + (i % 2)
                     Z == RandMat(s, cfg.r, k, -2, 2)
                     U == IF cfg.m = 0 THEN <<>> ELSE RandMat(s + 1, cfg.m, k, -2, 2)
                 IN [Z |-> Z, U |-> U, L |-> LhsOf(ops, Z, U)]
   ELSE LET U == IF cfg.m = 0 THEN <<>> ELSE RandMat(s + 1, cfg.m, K, -1, 1)
            tr == Trajectory(ops, RandVec(s, cfg.r, -2, 2), U, K, 40)
            Z == FromCols(tr)
        IN [Z |-> Z, U |-> IF cfg.m = 0 THEN <<>> ELSE Cols(U, Range2(1, Len(tr))), L |-> <<>>]
NPieces == IF Par THEN 1 ELSE 2 + (cfg.s % 3)
(* what the regression sees of a piece                                       *)
Seen(p) == IF p.L # <<>> THEN [Z |-> p.Z, U |-> p.U]
           ELSE LET k == NCols(p.Z) IN [Z |-> Cols(p.Z, Range2(1, k - 1)), U |-> IF cfg.m = 0 THEN <<>> ELSE Cols(p.U, Range2(1, k - 1))]
Pieces(mu, j) == TLCEval([i \in 1..NPieces |-> Piece(mu, i, j)])
RankOf(ps, ops) == LET sn == TLCEval([i \in 1..Len(ps) |-> Seen(ps[i])]) IN
   RankLB(DataMatrix(ops, HCatAll([i \in 1..Len(sn) |-> sn[i].Z]), IF cfg.m = 0 THEN <<>> ELSE HCatAll([i \in 1..Len(sn) |-> sn[i].U])))
(* trajectories may need several pieces per parameter to have full rank: then *)
(* only given left-hand sides can be used for parametric models              *)
Enough(j) == \A a \in 1..Len(Mus) : LET ps == Pieces(Mus[a], j) IN
   /\ \A i \in 1..Len(ps) : NCols(ps[i].Z) >= 3
   /\ RankOf(ps, OpsAt(Mus[a], j)) = DataDim(OpsAt(Mus[a], j), cfg.r, cfg.m)
Full(p) == [Q |-> IMul(V0, p.Z), L |-> IF p.L = <<>> THEN <<>> ELSE IMul(V0, p.L), U |-> p.U]
TestU == IF cfg.m = 0 THEN <<>> ELSE RandMat(Sd + 4, cfg.m, 6, -1, 1)
Z0 == RandVec(Sd + 3, cfg.r, -1, 2)
UPoly == TLCEval([i \in 1..cfg.m |-> [j \in 1..2 |-> I(Pick(Sd + 6, i, j, -1, 1))]])
RowCombo(v, ps) == LET RECURSIVE f(_)
                       f(k) == IF k = 0 THEN <<R0>> ELSE PAdd(f(k - 1), PScale(I(v[k]), ps[k])) IN f(Len(ps))
Obs(j) ==
   LET ops == OpsAt(TestMu, j) IN
   [pieces |-> TLCEval([a \in 1..Len(Mus) |-> LET ps == Pieces(Mus[a], j) IN [i \in 1..Len(ps) |-> Full(ps[i])]]),
    mus |-> Mus, mu |-> TestMu, q0 |-> IMulV(V0, Z0), U |-> TestU, V0 |-> V0] @@
   (IF cfg.kd = "d" THEN [traj |-> IMul(V0, FromCols(Trajectory(ops, Z0, TestU, 6, 60)))]
    ELSE LET ps == SolveTri(ops, Z0, UPoly, <<>>) IN
         IF BadPolys(ps) THEN [bad |-> TRUE]
         ELSE [sol |-> TLCEval([i \in 1..cfg.n |-> RowCombo(V0[i], ps)]), u |-> UPoly])
Next == /\ done = <<>>
        /\ (\E j \in 0..12 : Enough(j)) = TRUE
        /\ done' = <<TLCEval(Obs(CHOOSE j \in 0..12 : Enough(j) /\ \A i \in 0..(j - 1) : ~Enough(i)))>>
        /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
(* every emitted trajectory lies in the range of V0 and is reproduced by the *)
(* full model built from the reduced one                                     *)
InRange0 == done # <<>> => \A a \in 1..Len(done[1].pieces) : \A i \in 1..Len(done[1].pieces[a]) :
    RankLB(T(HCat(V0, done[1].pieces[a][i].Q))) = cfg.r
Emit == (done # <<>> /\ "bad" \notin DOMAIN done[1]) => PrintT("B@" \o ToJson([cfg |-> cfg, o |-> done[1]]))
=============================================================================
