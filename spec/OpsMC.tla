------------------------------- MODULE OpsMC -------------------------------
(***************************************************************************)
(* State machine of one operator object under the public API: set entries  *)
(* (non-redundant, full matrix, or tensor form), delete them, replace the  *)
(* object by its copy while the original is overwritten, and -- after each *)
(* step -- every observation the documentation defines.                    *)
(***************************************************************************)
EXTENDS Ops, Json
CONSTANTS Ts, Rs, Ms, Seeds, MaxLen, K, Focus
VARIABLES cfg, obj, hist
vars == <<cfg, obj, hist>>

None == [t |-> "none", E |-> <<>>]
Lo == -2   Hi == 2

Configs == {[t |-> t, r |-> r, m |-> m, s |-> s] : t \in Ts, r \in Rs, m \in Ms, s \in Seeds}
Valid(c) == (c.t \in {"B", "N"}) = (c.m > 0)

Init == cfg \in {c \in Configs : Valid(c)} /\ obj = None /\ hist = <<>>

StepSeed == cfg.s * 17 + Len(hist) * 5 + 1

(* entries given as a full matrix/tensor (all r^p columns) or compressed    *)
FullEntries(s) == RandMat(s, cfg.r, IPow(cfg.r, Degree(cfg.t)), Lo, Hi)
CompEntries(s) == RandMat(s, cfg.r, OpDim(cfg.t, cfg.r, cfg.m), Lo, Hi)

States == RandMat(StepSeed + 2, cfg.r, K, -2, 3)
Inputs == IF cfg.m = 0 THEN <<>> ELSE RandMat(StepSeed + 3, cfg.m, K, -2, 2)
InCol(j) == IF cfg.m = 0 THEN <<>> ELSE Col(Inputs, j)

(* reduced bases for projection checks *)
BasisPair(n, rr, s) ==
   LET V == RandMat(s, n, rr, -2, 2)
       W == RandMat(s + 1, n, rr, -1, 2)
   IN <<V, W>>
GoodPair(n, rr) ==
   LET ok(s) == LET p == BasisPair(n, rr, s) IN
                  Det(IMul(T(p[2]), p[1])) # 0 /\ Det(IMul(T(p[1]), p[1])) # 0
       s0 == StepSeed * 13
       k == CHOOSE j \in 1..400 : ok(s0 + j) /\ \A i \in 1..(j - 1) : ~ok(s0 + i)
   IN  BasisPair(n, rr, s0 + k)

GalerkinObs(op) ==
   LET n == op.r IN
   [k \in 1..Min2(n, 2) |->
      LET p == GoodPair(n, k)
          Z == RandMat(StepSeed + 5, k, 4, -2, 2) IN
      [V |-> p[1], W |-> p[2], Z |-> Z, rr |-> k,
       pg |-> [j \in 1..4 |-> PGApply(op, p[1], p[2], Col(Z, j), InCol(j))],
       g  |-> [j \in 1..4 |-> PGApply(op, p[1], p[1], Col(Z, j), InCol(j))],
       pj |-> [j \in 1..2 |-> PGJac(op, p[1], p[2], Col(Z, j), InCol(j))]]]

ObsOf(op) ==
   IF op.t = "none" THEN [trained |-> FALSE]
   ELSE [trained |-> TRUE, Q |-> States, U |-> Inputs, E |-> op.E,
         dim |-> OpDim(op.t, op.r, op.m),
         block |-> FromCols([j \in 1..K |-> Block(op.t, Col(States, j), InCol(j))]),
         apply |-> ApplyCols(op, States, Inputs),
         jac |-> IF Focus \in {"jac", "all"}
                 THEN [j \in 1..K |-> Jac(op, Col(States, j), InCol(j))] ELSE <<>>,
         gal |-> IF Focus \in {"gal", "all"} THEN GalerkinObs(op) ELSE <<>>]

Do(call, op) == /\ obj' = op
                /\ hist' = Append(hist, [call |-> call, obs |-> TLCEval(ObsOf(op))])
                /\ UNCHANGED cfg

Mk(E) == [t |-> cfg.t, r |-> cfg.r, m |-> cfg.m, E |-> E]

SetCompressed == LET E == CompEntries(StepSeed) IN
   Do([a |-> "set", form |-> "comp", E |-> E], Mk(E))
SetFull == /\ IsPoly(cfg.t) /\ Degree(cfg.t) >= 2
           /\ LET F == FullEntries(StepSeed) IN
              \E form \in {"full", "tensor"} :
              Do([a |-> "set", form |-> form, E |-> F], Mk(Compress(Degree(cfg.t), cfg.r, F)))
Clear == obj.t # "none" /\ Do([a |-> "clear"], None)
(* keep working with the copy; the original gets other entries              *)
SwapCopy == obj.t # "none" /\ Do([a |-> "copy", E |-> CompEntries(StepSeed + 9)], obj)
(* save to a file, load it back, continue with the loaded object            *)
SaveLoad == Do([a |-> "saveload"], obj)

Next == Len(hist) < MaxLen /\ (SetCompressed \/ SetFull \/ Clear \/ SwapCopy)
Spec == Init /\ [][Next]_vars

(* Design-level properties of the specification itself *)
(* compressing a full tensor preserves its meaning *)
CompressSound == \A i \in 1..Len(hist) :
   (hist[i].call.a = "set" /\ hist[i].call.form # "comp") =>
      \A j \in 1..K : LET q == Col(hist[i].obs.Q, j) IN
         IMulV(hist[i].call.E, FullBlock(Degree(cfg.t), q)) = Col(hist[i].obs.apply, j)
(* Euler: sum_l q_l dF/dq_l = degree * F for homogeneous terms *)
Euler == \A i \in 1..Len(hist) :
   (hist[i].obs.trained /\ hist[i].obs.jac # <<>>) =>
      \A j \in 1..K : LET q == Col(hist[i].obs.Q, j) IN
         IMulV(hist[i].obs.jac[j], q) =
           [x \in 1..cfg.r |-> Degree(cfg.t) * hist[i].obs.apply[x][j]]
Emit == (Len(hist) = MaxLen) => PrintT("B@" \o ToJson([cfg |-> cfg, hist |-> hist]))
=============================================================================
