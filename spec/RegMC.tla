------------------------------- MODULE RegMC -------------------------------
(***************************************************************************)
(* Diagonal regularisers assembled operator by operator: the block of      *)
(* operator i (its number of unknown columns, times the number of terms if *)
(* it is affine in a parameter) carries regularisation parameter i.        *)
(***************************************************************************)
EXTENDS Ops, Json
CONSTANTS Rs, Ms, Seeds, MaxOps
VARIABLES cfg, ops
vars == <<cfg, ops>>
Init == \E r \in Rs : \E m \in Ms : \E s \in Seeds :
   cfg = [r |-> r, m |-> m, s |-> s] /\ ops = <<>>
Add == /\ Len(ops) < MaxOps
       /\ \E t \in {"c", "A", "H", "G", "B", "N"} : \E w \in {0, 2} :
            /\ NeedsInput(t) => cfg.m > 0
            /\ ops' = Append(ops, [t |-> t, w |-> w]) /\ UNCHANGED cfg
Spec == Init /\ [][Add]_vars
Width(o) == OpDim(o.t, cfg.r, cfg.m) * (IF o.w = 0 THEN 1 ELSE o.w)
Lam(i) == Pick(cfg.s, i, Len(ops), 1, 9)
Diag == Flatten([i \in 1..Len(ops) |-> [j \in 1..Width(ops[i]) |-> Lam(i)]])
NeedM == \E i \in 1..Len(ops) : NeedsInput(ops[i].t)
Emit == Len(ops) >= 1 => PrintT("B@" \o ToJson([cfg |-> cfg, ops |-> ops, lam |-> [i \in 1..Len(ops) |-> Lam(i)], diag |-> Diag, needm |-> NeedM]))
=============================================================================
