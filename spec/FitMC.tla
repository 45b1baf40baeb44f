------------------------------- MODULE FitMC -------------------------------
(***************************************************************************)
(* The life of one model object under training: fit to one of several data *)
(* sets, refit, change the regularisation, refused fits.  Some operators   *)
(* are known beforehand; the others must be what the regression over the   *)
(* data matrix of the unknown operators gives, the left-hand side being    *)
(* reduced by the known part, once.                                        *)
(***************************************************************************)
EXTENDS Model, Json
CONSTANTS Forms, Kinds, Rs, Ms, Seeds, Regs, MaxLen, Acts, Noise
VARIABLES cfg, data, tr, hist
vars == <<cfg, data, tr, hist>>

NeedIn(f) == \E k \in 1..Len(f) : NeedsInput(f[k])
Unknown(f, mask) == {k \in 1..Len(f) : ~mask[k]}
UniqueUnknown(f, mask) == \A i, j \in Unknown(f, mask) : f[i] = f[j] => i = j

TrueOps(c) == TLCEval([k \in 1..Len(c.f) |-> RandOp(c.f[k], c.r, IF NeedsInput(c.f[k]) THEN c.m ELSE 0, c.s * 31 + k * 7 + c.r)])
NumRows(c) == DataDim(Select(TrueOps(c), c.mask, FALSE), c.r, c.m) + 3
RawData(c, d, j) == LET sd == c.s * 101 + d * 977 + j * 13
                        k == NumRows(c) IN
   [Q |-> RandMat(sd, c.r, k, -3, 3), U |-> IF c.m = 0 THEN <<>> ELSE RandMat(sd + 1, c.m, k, -2, 2)]
DataSet(c, d) ==
   LET ops == TrueOps(c)
       unk == Select(ops, c.mask, FALSE)
       kn  == Select(ops, c.mask, TRUE)
       dim == DataDim(unk, c.r, c.m)
       ok(j) == LET x == RawData(c, d, j) IN RankLB(DataMatrix(unk, x.Q, x.U)) = dim
       j0 == CHOOSE j \in 0..40 : ok(j) /\ \A i \in 0..(j - 1) : ~ok(i)
       x == RawData(c, d, j0)
       Z0 == LhsOf(ops, x.Q, x.U)
       Z == IF d \in Noise THEN IAdd(Z0, RandMat(c.s + d, c.r, NCols(x.Q), -2, 2)) ELSE Z0
   IN [Q |-> x.Q, U |-> x.U, Z |-> Z, exact |-> (d \notin Noise), D |-> DataMatrix(unk, x.Q, x.U),
       R |-> ISub(Z, RhsK(kn, x.Q, x.U))]
HasRank(c, d) == \E j \in 0..40 : LET x == RawData(c, d, j)
                                      unk == Select(TrueOps(c), c.mask, FALSE)
                                  IN RankLB(DataMatrix(unk, x.Q, x.U)) = DataDim(unk, c.r, c.m)

Init == \E f \in Forms : \E kd \in Kinds : \E r \in Rs : \E m \in Ms : \E s \in Seeds : \E g \in Regs :
        \E mask \in [1..Len(f) -> BOOLEAN] :
   /\ (m > 0) = NeedIn(f)
   /\ UniqueUnknown(f, mask) /\ Unknown(f, mask) # {}
   /\ cfg = [f |-> f, kd |-> kd, r |-> r, m |-> m, s |-> s, reg |-> g, mask |-> mask]
   /\ data = <<>> /\ tr = 0 /\ hist = <<>>

Gen == /\ data = <<>>
       /\ (HasRank(cfg, 1) /\ HasRank(cfg, 2)) = TRUE
       /\ data' = <<TLCEval(DataSet(cfg, 1)), TLCEval(DataSet(cfg, 2))>>
       /\ UNCHANGED <<cfg, tr, hist>>
Do(a, t) == tr' = t /\ hist' = Append(hist, [a |-> a, tr |-> t]) /\ UNCHANGED <<cfg, data>>
Fit(d) == Do([a |-> "fit", d |-> d], d)
Refit == tr # 0 /\ Do([a |-> "refit", d |-> tr], tr)
(* a refused fit leaves everything as it was: what was trained stays        *)
(* trained, and its data can be used again                                  *)
BadFit(k) == Do([a |-> "bad", d |-> k], tr)
NumBad == 6
Step == /\ data # <<>> /\ Len(hist) < MaxLen
        /\ \/ \E d \in 1..2 : Fit(d)
           \/ "refit" \in Acts /\ Refit
           \/ "bad" \in Acts /\ (\E k \in 1..NumBad : BadFit(k))
Next == Gen \/ Step
Spec == Init /\ [][Next]_vars

(* exact data satisfy the regression exactly by the true operators          *)
Consistent == data # <<>> => \A d \in 1..2 :
   data[d].exact => IMul(data[d].D, T(OpMatrix(Select(TrueOps(cfg), cfg.mask, FALSE)))) = T(data[d].R)
EndsWithFit == hist # <<>> /\ hist[Len(hist)].a.a # "bad"
Emit == (Len(hist) = MaxLen /\ EndsWithFit) =>
   PrintT("B@" \o ToJson([cfg |-> cfg, E |-> [k \in 1..Len(cfg.f) |-> TrueOps(cfg)[k].E], data |-> data, hist |-> hist]))
=============================================================================
