---------------------------- MODULE BasisMultiMC ----------------------------
(***************************************************************************)
(* Joint bases: one basis per state variable, acting block by block.       *)
(* st.dat: current training data (0: at least one variable untrained).     *)
(***************************************************************************)
EXTENDS Basis, Json
CONSTANTS NVs, Mixes, Forms, Sizes, Seeds, MaxLen, Acts
VARIABLES cfg, head, st, hist
vars == <<cfg, head, st, hist>>

Init == \E nv \in NVs : \E mx \in Mixes : \E fo \in Forms : \E sz \in Sizes : \E s \in Seeds : \E pre \in {TRUE, FALSE} :
   /\ cfg = [nv |-> nv, mix |-> mx, form |-> fo, sz |-> sz, s |-> s, pre |-> pre]
   /\ (~pre => (sz = "equal" \/ mx = "linear"))
   /\ head = <<>> /\ st = <<>> /\ hist = <<>>

Sd == cfg.s * 41
KindOf(i) == CASE cfg.mix = "linear" -> "linear" [] cfg.mix = "pod" -> "pod"
               [] OTHER -> IF ((i + cfg.s) % 2) = 0 THEN "pod" ELSE "linear"
N(i) == IF cfg.sz = "equal" THEN 3 ELSE 2 + ((i + cfg.s) % 3)
K == 5
R(i) == 1 + ((i + cfg.s) % 2)
Fac(i, j) == IF KindOf(i) = "pod" THEN PodFacts(Sd + 7 * i + 19 * j, N(i), K, cfg.form, Sd + i)
             ELSE LinFacts(Sd + 7 * i, N(i), R(i), cfg.form, Sd + i, TRUE)
NPod == Cardinality({i \in 1..cfg.nv : KindOf(i) = "pod"})
HeadRec == [i \in 1..cfg.nv |-> [kind |-> KindOf(i), r |-> Min2(R(i), N(i)), data |-> [j \in 1..2 |-> Fac(i, j)]]]
Start == [dat |-> IF NPod = 0 THEN 1 ELSE 0, sized |-> (cfg.pre \/ NPod = 0)]
Gen == head = <<>> /\ head' = TLCEval(HeadRec) /\ st' = Start /\ UNCHANGED <<cfg, hist>>
Do(a, ok, new) == /\ st' = IF ok THEN new ELSE st
                  /\ hist' = Append(hist, [a |-> a, ok |-> ok, st |-> IF ok THEN new ELSE st])
                  /\ UNCHANGED <<cfg, head>>
Act(n, v) == [n |-> n, v |-> v]
Fit == \E j \in 1..2 : Do(Act("fit", j), TRUE, [dat |-> IF NPod = 0 THEN 1 ELSE j, sized |-> TRUE])
(* one row too many: refused when the sizes are known, or do not divide      *)
BadFit == (st.sized \/ cfg.nv > 1) /\ Do(Act("badfit", 1), FALSE, st)
(* rows missing so that the sizes contradict a fixed basis or weights        *)
BadFit2 == (NPod < cfg.nv \/ cfg.form # "none" \/ st.sized) /\ cfg.sz = "equal" /\ Do(Act("badfit", 2), FALSE, st)
Copy == Do(Act("copy", 0), TRUE, st)
SaveLoad == Do(Act("saveload", 0), TRUE, st)
Step == /\ head # <<>> /\ Len(hist) < MaxLen
        /\ \/ ("fit" \in Acts /\ Fit)
           \/ ("badfit" \in Acts /\ (BadFit \/ BadFit2))
           \/ ("copy" \in Acts /\ Copy)
           \/ ("saveload" \in Acts /\ SaveLoad)
Spec == Init /\ [][Gen \/ Step]_vars

(* the joint basis is the block-diagonal one: projecting the blocks projects the whole *)
Orthonormal == head # <<>> => \A i \in 1..cfg.nv : \A j \in 1..2 :
   LET h == head[i].data[j]  G == Compress(h.V, h.W, h.V) IN BadM(G) \/ G = REyeM(NCols(h.V))
Emit == (head # <<>> /\ Len(hist) = MaxLen) => PrintT("B@" \o ToJson([cfg |-> cfg, start |-> Start, head |-> head, hist |-> hist]))
=============================================================================
