------------------------------- MODULE FdMC -------------------------------
(***************************************************************************)
(* One estimator (or function) per behaviour, used on a sequence of data   *)
(* sets with and without inputs.                                           *)
(***************************************************************************)
EXTENDS Fd, Json
CONSTANTS Kinds,   \* subset of {"uniform", "nonuniform", "interp"}
          Ks, Seeds, MaxLen, Exact   \* Exact: also check exactness of the specification itself
VARIABLES cfg, hist
vars == <<cfg, hist>>

Dts == <<R1, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<1, 5>>, <<3, 1>> >>
Interps == <<"cubic", "akima", "pchip">>

InitUniform == \E s \in 1..18, k \in Ks, sd \in Seeds :
   /\ k > OrderOf[s]
   /\ cfg = [kind |-> "uniform", scheme |-> Schemes[s], mode |-> ModeOf[s], p |-> OrderOf[s], k |-> k,
             dt |-> Dts[1 + (Hash2(sd, s * 7 + k) % 6)], s |-> sd]
InitNon == \E k \in Ks, sd \in Seeds : k >= 3 /\ cfg = [kind |-> "nonuniform", scheme |-> "nonuniform", mode |-> "non", p |-> 2, k |-> k, dt |-> R1, s |-> sd]
(* the new times may lie outside the times of the data on one side, the other, or both; only cubic splines extrapolate polynomials exactly *)
InitInterp == \E i \in 1..3, k \in Ks, sd \in Seeds, nt \in {"same", "new", "below", "above", "around"} :
   k >= 4 /\ (nt \in {"same", "new"} \/ (i = 1 /\ k <= 7))
   /\ cfg = [kind |-> "interp", scheme |-> Interps[i], mode |-> nt, p |-> IF i = 1 THEN 3 ELSE 1, k |-> k, dt |-> R1, s |-> sd]
Init == /\ hist = <<>>
        /\ \/ "uniform" \in Kinds /\ InitUniform
           \/ "nonuniform" \in Kinds /\ InitNon
           \/ "interp" \in Kinds /\ InitInterp

(* strictly increasing nonuniform nodes *)
RECURSIVE Accum(_, _)
Accum(d, i) == IF i = 1 THEN d[1] ELSE RAdd(Accum(d, i - 1), d[i])
NodesOf(s, k) == LET d == TLCEval([i \in 1..k |-> Rat(Pick(s, 5, i, 1, 4), IF s % 2 = 0 THEN 2 ELSE 1)]) IN
                 TLCEval([i \in 1..k |-> Accum(d, i)])
NewCount(s, k) == 1 + (Hash2(s, k) % (k - 1))
Inside(s, t) ==   \* points inside the time domain, increasing
   TLCEval([i \in 1..NewCount(s, Len(t)) |-> LET f == Rat(Pick(s, 7, i, 0, 3), 4) IN RAdd(t[i], RMul(f, RSub(t[i + 1], t[i])))])
Before(s, t) == <<RSub(t[1], Rat(Pick(s, 8, 1, 1, 3), 4))>>
After(s, t) == <<RAdd(t[Len(t)], Rat(Pick(s, 9, 1, 1, 3), 4))>>
NewTimes(s, t) == TLCEval((IF cfg.mode \in {"below", "around"} THEN Before(s, t) ELSE <<>>) \o Inside(s, t)
                          \o (IF cfg.mode \in {"above", "around"} THEN After(s, t) ELSE <<>>))
HasNew == cfg.kind = "interp" /\ cfg.mode # "same"
Warns0(t) == IF cfg.kind = "nonuniform" THEN \A i \in 2..(Len(t) - 1) : RSub(t[i + 1], t[i]) = RSub(t[2], t[1])
              ELSE cfg.mode \in {"below", "above", "around"}
Times == IF cfg.kind = "uniform" THEN [i \in 1..cfg.k |-> RMul(I(i - 1), cfg.dt)] ELSE NodesOf(cfg.s * 13 + cfg.k, cfg.k)

Step == \E nu \in 0..5 :   \* 0: no inputs; 1: one-dimensional inputs; 2, 3: input dimension 1, 2; 4: as many as times; 5: as many as returned times
   LET ss == cfg.s * 101 + Len(hist) * 17 + cfg.k
       r == LET a == 1 + (Hash2(ss, nu + 3) % 4) IN IF a = 4 THEN cfg.k ELSE a
       m == CASE nu <= 1 -> 1 [] nu \in {2, 3} -> nu - 1 [] nu = 4 -> cfg.k
              [] OTHER -> IF HasNew THEN Len(NewTimes(cfg.s * 31 + cfg.k, TLCEval(Times))) ELSE Len(OutCols(IF cfg.kind = "interp" THEN "ord" ELSE cfg.mode, cfg.p, cfg.k))
       t == TLCEval(Times)
       CQ == TLCEval([a \in 1..r |-> [d \in 1..(cfg.p + 1) |-> I(Pick(ss, a, d, -2, 2))]])
       CU == TLCEval([a \in 1..m |-> [d \in 1..(cfg.p + 1) |-> I(Pick(ss + 9, a, d, -2, 2))]])
       Q == IF cfg.kind = "interp" THEN PolyMat(CQ, t) ELSE ToR(RandMat(ss, r, cfg.k, -9, 9))
       U == IF cfg.kind = "interp" THEN PolyMat(CU, t) ELSE ToR(RandMat(ss + 5, m, cfg.k, -9, 9))
       t2 == IF HasNew THEN NewTimes(cfg.s * 31 + cfg.k, t) ELSE t
       oc == OutCols(IF cfg.kind = "interp" THEN "ord" ELSE cfg.mode, cfg.p, cfg.k)
       D == IF cfg.kind = "interp" THEN PolyMat(TLCEval([a \in 1..r |-> PolyDer(CQ[a])]), t2)
            ELSE Ddt(cfg.mode, cfg.p, Q, t)
       Q2 == IF cfg.kind = "interp" THEN PolyMat(CQ, t2) ELSE Cols(Q, oc)
       U2 == IF cfg.kind = "interp" THEN PolyMat(CU, t2) ELSE Cols(U, oc)
   IN  /\ ~BadM(D) /\ ~BadM(Q2) /\ ~BadM(U2)
       /\ hist' = Append(hist, [nu |-> nu, Q |-> Q, U |-> U, D |-> D, Q2 |-> Q2, U2 |-> U2])
       /\ UNCHANGED cfg
Next == Len(hist) < MaxLen /\ Step
Spec == Init /\ [][Next]_vars

NT == NewTimes(cfg.s * 31 + cfg.k, TLCEval(Times))
(* the scheme is exact for all polynomials up to its order, at every column *)
ExactOnPolys == (Exact /\ hist = <<>> /\ cfg.kind # "interp") =>
   LET t == TLCEval(Times)  oc == OutCols(cfg.mode, cfg.p, cfg.k) IN
   \A d \in 0..cfg.p :
      LET c == TLCEval([i \in 1..(d + 1) |-> IF i = d + 1 THEN R1 ELSE R0])
          D == Ddt(cfg.mode, cfg.p, PolyMat(<<c>>, t), t)
          E == PolyMat(<<PolyDer(c)>>, [j \in 1..Len(oc) |-> t[oc[j]]])
      IN  BadM(D) \/ D = E
Emit == Len(hist) = MaxLen => PrintT("B@" \o ToJson([cfg |-> cfg, t |-> TLCEval(Times), t2 |-> IF HasNew THEN NT ELSE <<>>, warns |-> Warns0(TLCEval(Times)), hist |-> hist]))
=============================================================================
