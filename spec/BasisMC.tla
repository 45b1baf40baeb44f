------------------------------- MODULE BasisMC -------------------------------
(***************************************************************************)
(* Life of one basis object.  st:                                          *)
(*   sol  SVD engine in force for the next fit                             *)
(*   dat  current training data (0: untrained)                             *)
(*   crit dimension selection criterion in force for the next fit          *)
(*   r    reported reduced dimension (0: none)                             *)
(*   mv   number of stored vectors (0: none),  ns number of known          *)
(*        singular values                                                  *)
(***************************************************************************)
EXTENDS Basis, Json
CONSTANTS Kinds, Solvers, Forms, Ns, MaxVecs, Seeds, MaxLen, Acts
VARIABLES cfg, head, st, hist
vars == <<cfg, head, st, hist>>

Init == \E kd \in Kinds : \E so \in Solvers : \E fo \in Forms : \E n \in Ns : \E mx \in MaxVecs : \E s \in Seeds :
   /\ (kd # "pod") => (so = "dense" /\ mx = 0)
   /\ cfg = [kind |-> kd, solver |-> so, form |-> fo, n |-> n, mx |-> mx, s |-> s]
   /\ head = <<>> /\ st = <<>> /\ hist = <<>>

Sd == cfg.s * 53 + cfg.n
DN(i) == IF i = 3 /\ cfg.form = "none" THEN cfg.n + 1 ELSE cfg.n
DK(i) == CASE i = 1 -> cfg.n + 2 [] i = 2 -> Max2(2, cfg.n - 1) [] OTHER -> cfg.n
NV(i) == Min2(DN(i), DK(i))
Pod == cfg.kind = "pod"
HeadRec == IF Pod THEN [i \in 1..3 |-> PodFacts(Sd + 11 * i, DN(i), DK(i), cfg.form, Sd)]
           ELSE [i \in 1..1 |-> LinFacts(Sd, cfg.n, Max2(1, cfg.n - 2), cfg.form, Sd, cfg.kind = "orth")]

Crits == {[n |-> "num_vectors", v |-> I(1)], [n |-> "num_vectors", v |-> I(2)], [n |-> "num_vectors", v |-> I(7)],
          [n |-> "svdval_threshold", v |-> Rat(31, 61)], [n |-> "svdval_threshold", v |-> Rat(7, 67)],
          [n |-> "cumulative_energy", v |-> Rat(43, 61)], [n |-> "cumulative_energy", v |-> Rat(66, 67)],
          [n |-> "residual_energy", v |-> Rat(23, 61)], [n |-> "residual_energy", v |-> Rat(3, 67)],
          [n |-> "projection_error", v |-> Rat(31, 61)], [n |-> "projection_error", v |-> Rat(11, 67)]}
C0 == LET all == <<[n |-> "num_vectors", v |-> I(2)], [n |-> "svdval_threshold", v |-> Rat(31, 61)],
                   [n |-> "cumulative_energy", v |-> Rat(43, 61)], [n |-> "residual_energy", v |-> Rat(23, 61)],
                   [n |-> "projection_error", v |-> Rat(31, 61)]>> IN all[1 + (cfg.s % 5)]
Start == IF Pod THEN [sol |-> cfg.solver, dat |-> 0, crit |-> C0, r |-> 0, mv |-> 0, ns |-> 0]
         ELSE [sol |-> "dense", dat |-> 1, crit |-> [n |-> "num_vectors", v |-> I(1)], r |-> Max2(1, cfg.n - 2), mv |-> 0, ns |-> 0]
Gen == head = <<>> /\ head' = TLCEval(HeadRec) /\ st' = Start /\ UNCHANGED <<cfg, hist>>

(* an engine may find fewer triples than there are, and in any order *)
Found(i) == IF st.sol = "partial" THEN Max2(1, NV(i) - 1) ELSE NV(i)
Keep(i) == IF cfg.mx = 0 THEN Found(i) ELSE Min2(cfg.mx, Found(i))
NSv(i) == IF st.sol = "randomized" THEN Keep(i) ELSE Found(i)
Sv(i, ns) == SubSeq(head[i].sv, 1, ns)
Pick1(crit, i, mv, ns) == Min2(mv, Dim(crit, Sv(i, ns)))
Do(a, ok, new) == /\ st' = IF ok THEN new ELSE st
                  /\ hist' = Append(hist, [a |-> a, ok |-> ok, st |-> IF ok THEN new ELSE st])
                  /\ UNCHANGED <<cfg, head>>
Act(n, v) == [n |-> n, v |-> v, c |-> <<>>]
Fit == Pod /\ (\E i \in 1..3 : Clear(st.crit, Sv(i, NSv(i)))
          /\ Do(Act("fit", i), TRUE, [sol |-> st.sol, dat |-> i, crit |-> st.crit, r |-> Pick1(st.crit, i, Keep(i), NSv(i)), mv |-> Keep(i), ns |-> NSv(i)]))
BadFit == Pod /\ cfg.form # "none" /\ Do(Act("badfit", 0), FALSE, st)
SetDim == Pod /\ (\E c \in Crits :
     IF st.dat = 0 THEN Do([n |-> "setdim", v |-> 0, c |-> c], TRUE, [st EXCEPT !.crit = c])
     ELSE /\ Clear(c, Sv(st.dat, st.ns))
          /\ Do([n |-> "setdim", v |-> 0, c |-> c], TRUE, [st EXCEPT !.crit = c, !.r = Pick1(c, st.dat, st.mv, st.ns)]))
SetR == Pod /\ (\E r \in {1, 2, 3, 9} :
     Do(Act("setr", r), TRUE,
        IF st.dat = 0 THEN [st EXCEPT !.crit = [n |-> "num_vectors", v |-> I(r)], !.r = r]
        ELSE [st EXCEPT !.r = Min2(r, st.mv)]))
(* another engine for the next fit; nothing that was learned changes *)
Engine == Pod /\ (\E e \in {"dense", "eigh", "randomized", "ascending", "partial"} : e # st.sol /\ Do([n |-> "engine", v |-> 0, c |-> e], TRUE, [st EXCEPT !.sol = e]))
BadEngine == Pod /\ Do(Act("badengine", 0), FALSE, st)
Copy == Do(Act("copy", 0), TRUE, st)
(* a function cannot be saved: a loaded basis has the standard engine instead *)
Saved == IF st.sol \in {"custom", "ascending", "partial"} THEN [st EXCEPT !.sol = "dense"] ELSE st
SaveLoad == Do(Act("saveload", 0), TRUE, Saved)
LoadMax == Pod /\ st.dat # 0 /\ (\E m \in {1, 2, 8} : Do(Act("loadmax", m), TRUE,
     [Saved EXCEPT !.mv = Min2(m, st.mv), !.r = Min2(m, st.r),
                !.crit = IF st.crit.n = "num_vectors" THEN [n |-> "num_vectors", v |-> I(Min2(Min2(m, st.mv), st.crit.v[1]))] ELSE st.crit]))
NoFit == ~Pod /\ Do(Act("fit", 1), TRUE, st)
Step == /\ head # <<>> /\ Len(hist) < MaxLen
        /\ \/ ("fit" \in Acts /\ (Fit \/ NoFit))
           \/ ("badfit" \in Acts /\ BadFit)
           \/ ("setdim" \in Acts /\ SetDim)
           \/ ("setr" \in Acts /\ SetR)
           \/ ("engine" \in Acts /\ Engine)
           \/ ("badengine" \in Acts /\ BadEngine)
           \/ ("copy" \in Acts /\ Copy)
           \/ ("saveload" \in Acts /\ SaveLoad)
           \/ ("loadmax" \in Acts /\ LoadMax)
Next == Gen \/ Step
Spec == Init /\ [][Next]_vars

(* design-level facts about the specification itself                        *)
Orthonormal == (head # <<>> /\ cfg.kind # "linear") => \A i \in 1..Len(head) :
   LET G == Compress(head[i].V, head[i].W, head[i].V) IN BadM(G) \/ G = REyeM(NCols(head[i].V))
Idempotent == (head # <<>> /\ cfg.kind # "linear") => \A i \in 1..Len(head) :
   LET h == head[i]  r == Len(h.proj)  P == Compress(h.V, h.W, h.proj[r]) IN BadM(P) \/ BadM(h.coef) \/ P = h.coef
DimOk == (head # <<>> /\ Pod /\ st.dat # 0) => (st.r \in 0..st.mv /\ st.mv <= NV(st.dat))
EnergyMonotone == (head # <<>> /\ Pod) => \A i \in 1..3 : \A j \in 1..(NV(i) - 1) : RLt(head[i].cum[j], head[i].cum[j + 1])
Emit == (head # <<>> /\ Len(hist) = MaxLen) => PrintT("B@" \o ToJson([cfg |-> cfg, start |-> Start, head |-> head, hist |-> hist]))
=============================================================================
