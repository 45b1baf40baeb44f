------------------------------- MODULE RomMC -------------------------------
(***************************************************************************)
(* Life of one ROM object: fit to one of several data sets of one or more  *)
(* trajectories, with or without refitting the transformer and the basis,  *)
(* refused fits; after every step all encodings, decodings and the data    *)
(* the model has learned from.                                             *)
(***************************************************************************)
EXTENDS Rom, Json
CONSTANTS Lifters, Tfs, Bases, Kinds, Ms, Seeds, MaxLen, Acts, Stride, Stride2
VARIABLES cfg, head, st, hist
vars == <<cfg, head, st, hist>>

N0 == 2
Ix(x, names) == CHOOSE i \in 1..Len(names) : names[i] = x
HashOf(l, tf, b, kd, m, s, par) ==
   Hash2(Hash2(Hash2(Hash2(s, tf + 1), Ix(l, <<"none", "quad", "cube">>)), Ix(b, <<"none", "lin", "learn", "multi", "pod">>)),
         (IF kd = "c" THEN 1 ELSE 0) + 2 * m + (IF par THEN 7 ELSE 0)) \div 7
Init == \E l \in Lifters : \E tf \in Tfs : \E b \in Bases : \E kd \in Kinds : \E m \in Ms : \E s \in Seeds :
        \E par \in {FALSE, TRUE} :
   /\ HashOf(l, tf, b, kd, m, s, par) % Stride = 0
   /\ cfg = [l |-> l, tf |-> tf, b |-> b, kd |-> kd, m |-> m, s |-> s, par |-> par]
   /\ head = <<>> /\ st = <<>> /\ hist = <<>>

Sd == cfg.s * 61 + cfg.tf
NL == N0 * NBlocks(cfg.l)
Half == NL \div 2
SS(n, cen, scl, byrow) == [k |-> "ss", n |-> n, cen |-> cen, scl |-> scl, byrow |-> byrow]
TfTree ==
   CASE cfg.tf = 1 -> [k |-> "null", n |-> NL]
     [] cfg.tf = 2 -> SS(NL, TRUE, "none", FALSE)
     [] cfg.tf = 3 -> SS(NL, TRUE, "minmax", FALSE)
     [] cfg.tf = 4 -> SS(NL, FALSE, "maxabs", TRUE)
     [] cfg.tf = 5 -> [k |-> "shift", n |-> NL, par |-> [j \in 1..NL |-> Rat(Pick(Sd, 3, j, -6, 6), 2)]]
     [] cfg.tf = 6 -> [k |-> "pipe", n |-> NL, parts |-> <<SS(NL, TRUE, "none", FALSE), SS(NL, FALSE, "minmaxsym", TRUE)>>]
     [] cfg.tf = 7 -> [k |-> "multi", n |-> NL, parts |-> <<SS(Half, TRUE, "minmaxsym", FALSE), SS(Half, FALSE, "maxabs", FALSE)>>]
     [] cfg.tf = 8 -> [k |-> "scalerow", n |-> NL, par |-> [j \in 1..NL |-> Rat(1 + (j % 3), 2)]]
     [] OTHER -> [k |-> "null", n |-> NL]          \* 0: no transformer at all
NoTf == cfg.tf = 0
BasisRec == [k |-> cfg.b, n |-> NL, r |-> 2, s |-> Sd + 5]
RDim == IF cfg.b \in {"none", "pod"} THEN NL ELSE 2
DdIdx == CASE cfg.s % 4 = 0 -> 2 [] cfg.s % 4 = 1 -> 7 [] cfg.s % 4 = 2 -> 13 [] OTHER -> 16
C == [l |-> cfg.l, tf |-> TfTree, b |-> BasisRec, kd |-> cfg.kd, dd |-> DdIdx]
Untrained == [l |-> cfg.l, ab |-> IF NeedsFit(TfTree) THEN <<>> ELSE Learn(TfTree, IZero(NL, 1)),
              V |-> IF cfg.b = "lin" THEN TrainV(BasisRec, IZero(NL, 1)) ELSE IF cfg.b = "none" THEN ToR(IEye(NL)) ELSE <<>>,
              ok |-> TRUE, Y |-> <<>>]

(* data sets: 1 one trajectory, 2 three trajectories, 3 two; with (even) or  *)
(* without left-hand sides                                                   *)
NTraj(d) == CASE d = 1 -> IF cfg.par THEN 2 ELSE 1 [] d = 2 -> 3 [] OTHER -> 2
GivenLhs(d) == (Sd + d) % 3 = 0
KOf(d, i) == 4 + ((d + 2 * i + cfg.s) % 3)
(* for discrete trajectories without left-hand sides the input of the last   *)
(* state is not needed, and further inputs are not used                      *)
Extra(s, d) == IF cfg.kd = "d" /\ ~GivenLhs(d) THEN <<-1, 0, 1, 3>>[1 + ((s \div 3) % 4)] ELSE 0
Data(d) == TLCEval([i \in 1..NTraj(d) |->
   LET s == Sd * 17 + d * 101 + i * 7  k == KOf(d, i) IN
   [Q |-> ToR(RandMat(s, N0, k, -2, 3)), Z |-> IF GivenLhs(d) THEN ToR(RandMat(s + 1, N0, k, -2, 2)) ELSE <<>>,
    U |-> IF cfg.m = 0 THEN <<>> ELSE ToR(RandMat(s + 2, cfg.m, k + Extra(s, d), -2, 2))]])

Gen == /\ head = <<>>
       /\ head' = <<TLCEval([d \in 1..3 |-> Data(d)])>>
       /\ st' = TLCEval(Untrained) /\ UNCHANGED <<cfg, hist>>

LocsOK == /\ (cfg.tf = 7) = (cfg.b = "multi") \/ (cfg.tf \in {0, 1, 8} /\ cfg.b = "none")
          /\ cfg.l # "none" => cfg.tf = 7
LocRows2(locs) == IF cfg.tf = 7 THEN locs \o [i \in 1..Len(locs) |-> Half + locs[i]] ELSE locs
Observe(R) ==
   IF R.ab = <<>> \/ R.V = <<>> THEN [trained |-> FALSE]
   ELSE LET s == Sd * 3 + Len(hist)
            X == ToR(RandMat(s, N0, 3, -3, 4))  D == ToR(RandMat(s + 1, N0, 3, -3, 3))
            K == ToR(RandMat(s + 2, NCols(R.V), 2, -2, 2))
            m == IF cfg.tf = 7 THEN Half ELSE NL
            locs == SubSeq(Perm(s, m), 1, 1 + (s % m))
            e == Enc(R, X)
        IN [trained |-> TRUE, X |-> X, D |-> D, E |-> e,
            ED |-> IF cfg.kd = "c" THEN EncD(R, X, D) ELSE Enc(R, D),
            C |-> K, DC |-> Dec(R, K), PX |-> Dec(R, e), locsok |-> LocsOK,
            locs |-> IF LocsOK THEN locs ELSE <<>>,
            DL |-> IF LocsOK THEN DecAt(R, K, LocRows2(locs)) ELSE <<>>,
            a |-> R.ab.a, b |-> R.ab.b, V |-> R.V]

(* histories longer than one step are thinned                                *)
Keep2(x) == IF hist = <<>> THEN TRUE ELSE (Hash2(Hash2(Sd + Len(hist), x + 3 * cfg.m), hist[1].a.d * 5 + Len(cfg.b)) \div 7) % Stride2 = 0
Log(a, ok, R, extra) == hist' = Append(hist, TLCEval([a |-> a, ok |-> ok, obs |-> Observe(R)] @@ extra))
Fit == \E d \in 1..3 : \E ft \in {TRUE, FALSE} : \E fb \in {TRUE, FALSE} :
   /\ Keep2(d * 4 + (IF ft THEN 2 ELSE 0) + (IF fb THEN 1 ELSE 0))
   /\ (ft \/ st.ab # <<>>) /\ (fb \/ st.V # <<>>)
   /\ LET R == TrainStages(C, st, head[1][d], ft, fb) IN
      /\ (R.ok /\ Usable(R.ab)) = TRUE
      /\ LET g == Regress(C, R, head[1][d]) IN
         /\ (\A i \in 1..Len(g) : ~BadM(g[i].S) /\ ~BadM(g[i].Z)) = TRUE
         /\ st' = R
         /\ Log([n |-> "fit", d |-> d, ft |-> ft, fb |-> fb], TRUE, R, [reg |-> g, Y |-> R.Y])
   /\ UNCHANGED <<cfg, head>>
(* refused: nothing is trained                                               *)
BadFit == \E k \in 1..7 : Keep2(k + 20) /\ /\ Log([n |-> "bad", d |-> k, ft |-> TRUE, fb |-> TRUE], FALSE, st, [reg |-> <<>>])
                          /\ UNCHANGED <<cfg, head, st>>
Last == hist[Len(hist)].a
Step == /\ head # <<>> /\ Len(hist) < MaxLen
        /\ \/ Fit
           \/ "bad" \in Acts /\ (Len(hist) < MaxLen - 1 \/ (IF hist = <<>> THEN FALSE ELSE Last.n = "fit")) /\ BadFit
Next == Gen \/ Step
Spec == Init /\ [][Next]_vars

(* ------------------ checks of the specification itself ------------------ *)
(* decoding an encoding without a basis is the identity; projections onto    *)
(* what was encoded depend on nothing but the encoding                        *)
RoundTrip == (hist # <<>> /\ cfg.b \in {"none", "pod"} /\ hist[Len(hist)].obs.trained) =>
   LET o == hist[Len(hist)].obs IN BadM(o.PX) \/ o.PX = o.X
(* never across a boundary: each trajectory's regression is that of the      *)
(* trajectory alone                                                          *)
Separate == (hist # <<>> /\ hist[Len(hist)].a.n = "fit") =>
   LET h == hist[Len(hist)] IN
   \A i \in 1..Len(h.reg) : Regress(C, st, <<head[1][h.a.d][i]>>)[1] = h.reg[i]
Emit == (Len(hist) = MaxLen /\ MaxLen > 0) => PrintT("B@" \o ToJson([cfg |-> cfg, tree |-> TfTree, basis |-> BasisRec, dd |-> DdIdx,
   data |-> head[1], pre |-> (Untrained.ab # <<>> /\ Untrained.V # <<>>), hist |-> hist]))
=============================================================================
