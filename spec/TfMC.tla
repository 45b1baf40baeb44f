------------------------------- MODULE TfMC -------------------------------
(***************************************************************************)
(* Lifecycle of one transformer object under the public API: fit in one of *)
(* its three forms on one of several data sets (also with another number   *)
(* of rows where the class allows it), refused fits, and after every step  *)
(* every documented observation.                                           *)
(***************************************************************************)
EXTENDS Tf, Json
CONSTANTS Shapes,     \* which tree shapes: subset of {"leaf","pipe2","pipe3","multi2","multi3","nested"}
          Ns,         \* numbers of rows
          Ks,         \* numbers of training snapshots (4 or 5)
          Seeds, MaxLen, Stride   \* composed shapes: take every Stride-th combination
VARIABLES cfg, ab, hist
vars == <<cfg, ab, hist>>

(* ------------------------------ leaves ------------------------------- *)
SSList == << <<"none", FALSE>>, <<"standard", FALSE>>, <<"minmax", FALSE>>, <<"minmaxsym", FALSE>>,
             <<"maxabs", FALSE>>, <<"maxabssym", FALSE>>, <<"maxnorm", FALSE>>, <<"maxnormsym", FALSE>>,
             <<"none", TRUE>>, <<"standard", TRUE>>, <<"minmax", TRUE>>, <<"minmaxsym", TRUE>>,
             <<"maxabs", TRUE>>, <<"maxabssym", TRUE>> >>
NLeaf == 33
Scalars == << <<2, 1>>, <<-1, 2>>, <<4, 1>>, <<1, 4>>, <<-2, 1>>, <<3, 2>> >>
Leaf(i, n, s) ==
   IF i <= 28 THEN LET e == SSList[((i - 1) % 14) + 1] IN
                   [k |-> "ss", n |-> n, cen |-> (i > 14), scl |-> e[1], byrow |-> e[2]]
   ELSE IF i = 29 THEN [k |-> "null", n |-> n]
   ELSE IF i = 30 THEN [k |-> "shift", n |-> n, par |-> [j \in 1..n |-> Rat(Pick(s, 3, j, -6, 6), 2)]]
   ELSE IF i = 31 THEN [k |-> "scale", n |-> n, par |-> <<Scalars[1 + (s % 6)]>>]
   \* a user-defined transformer (q -> c q) without a rule for time derivatives
   ELSE IF i = 33 THEN [k |-> "user", n |-> n, par |-> <<Scalars[1 + (s % 6)]>>]
   ELSE [k |-> "scalerow", n |-> n, par |-> [j \in 1..n |-> Scalars[1 + (Hash2(s, j) % 6)]]]

(* "transform_ddts() returns NotImplemented unless every part implements it" *)
RECURSIVE HasDdt(_)
HasDdt(t) == CASE t.k = "user" -> FALSE
               [] t.k \in {"pipe", "multi"} -> \A i \in 1..Len(t.parts) : HasDdt(t.parts[i])
               [] OTHER -> TRUE

Pipe(ps) == [k |-> "pipe", n |-> ps[1].n, parts |-> ps]
RECURSIVE SumN(_, _)
SumN(ps, i) == IF i = 0 THEN 0 ELSE SumN(ps, i - 1) + ps[i].n
Multi(ps) == [k |-> "multi", n |-> SumN(ps, Len(ps)), parts |-> ps]

(* fit data: does the node learn anything from data in a later refit with   *)
(* another number of rows?                                                  *)
RECURSIVE Resizable(_)
Resizable(t) == CASE t.k \in {"shift", "scalerow", "multi"} -> FALSE
                  [] t.k = "pipe" -> \A i \in 1..Len(t.parts) : Resizable(t.parts[i])
                  [] OTHER -> TRUE
RECURSIVE Resize(_, _)
Resize(t, n) == IF t.k = "pipe" THEN [t EXCEPT !.n = n, !.parts = [i \in 1..Len(t.parts) |-> Resize(t.parts[i], n)]]
                ELSE [t EXCEPT !.n = n]

Keep(ii, nn) == Hash2(ii[1] * 41 + (IF Len(ii) > 1 THEN ii[2] * 13 ELSE 0) + nn[1] * 3 + (IF Len(nn) > 1 THEN nn[2] * 5 ELSE 0), Len(ii)) % Stride = 0
Set(sh, ii, nn) == /\ (sh # "leaf" => Keep(ii, nn))
                   /\ \E s \in Seeds, k \in Ks : cfg = [c |-> [sh |-> sh, i |-> ii, n |-> nn], s |-> s, k |-> k]
InitCfg ==
   \E a \in 1..NLeaf, n \in Ns :
     \/ "leaf" \in Shapes /\ Set("leaf", <<a>>, <<n>>)
     \/ \E b \in 1..NLeaf :
          \/ "pipe2" \in Shapes /\ Set("pipe2", <<a, b>>, <<n>>)
          \/ "pipe3" \in Shapes /\ Set("pipe3", <<a, b, ((a * 7 + b * 11) % NLeaf) + 1>>, <<n>>)
          \/ \E d \in Ns :
               \/ "multi2" \in Shapes /\ Set("multi2", <<a, b>>, <<n, d>>)
               \/ d <= 2 /\ "multi3" \in Shapes /\ Set("multi3", <<a, b, ((a * 5 + b * 13) % NLeaf) + 1>>, <<n, d, 2>>)
               \/ d <= 2 /\ "nested" \in Shapes /\ \E sh \in {"multi(pipe,leaf)", "pipe(multi,leaf)", "pipe(pipe,leaf)"} :
                    Set(sh, <<a, b, ((a * 3 + b * 17) % NLeaf) + 1>>, <<n, d>>)

Tree(c, s) ==
   LET lf(j, n) == Leaf(c.i[j], n, s + j) IN
   CASE c.sh = "leaf" -> lf(1, c.n[1])
     [] c.sh = "pipe2" -> Pipe(<<lf(1, c.n[1]), lf(2, c.n[1])>>)
     [] c.sh = "pipe3" -> Pipe(<<lf(1, c.n[1]), lf(2, c.n[1]), lf(3, c.n[1])>>)
     [] c.sh = "multi2" -> Multi(<<lf(1, c.n[1]), lf(2, c.n[2])>>)
     [] c.sh = "multi3" -> Multi(<<lf(1, c.n[1]), lf(2, c.n[2]), lf(3, c.n[3])>>)
     [] c.sh = "multi(pipe,leaf)" -> Multi(<<Pipe(<<lf(1, c.n[1]), lf(2, c.n[1])>>), lf(3, c.n[2])>>)
     [] c.sh = "pipe(multi,leaf)" -> Pipe(<<Multi(<<lf(1, c.n[1]), lf(2, c.n[2])>>), lf(3, c.n[1] + c.n[2])>>)
     [] c.sh = "pipe(pipe,leaf)" -> Pipe(<<Pipe(<<lf(1, c.n[1]), lf(2, c.n[1])>>), lf(3, c.n[1])>>)

(* ------------------------------- data -------------------------------- *)
(* rows with rational standard deviation, not constant                    *)
RowSet4 == {v \in [1..4 -> -4..4] : LET s == v[1] + v[2] + v[3] + v[4]
                                        q == v[1]*v[1] + v[2]*v[2] + v[3]*v[3] + v[4]*v[4]
                                    IN 4 * q # s * s /\ IsSquare(4 * q - s * s)}
RowSet5 == {v \in [1..5 -> -3..4] : LET s == v[1] + v[2] + v[3] + v[4] + v[5]
                                        q == v[1]*v[1] + v[2]*v[2] + v[3]*v[3] + v[4]*v[4] + v[5]*v[5]
                                    IN 5 * q # s * s /\ IsSquare(5 * q - s * s)}
RECURSIVE SetToList(_)
SetToList(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToList(S \ {x})
RowLib4 == TLCEval(SetToList(RowSet4))
RowLib5 == TLCEval(SetToList(RowSet5))
DataRow(s, i, k) == LET lib == IF k = 4 THEN RowLib4 ELSE RowLib5 IN lib[1 + (Hash2(s, i) % Len(lib))]
TrainData(s, n, k) == ToR([i \in 1..n |-> DataRow(s, i, k)])

Good(t, X) == LET f == Learn(t, X) IN
   /\ Usable(f)
   /\ ~BadM(ApplyAB(f, X))
TRY == 40
RECURSIVE FindFrom(_, _, _, _)
FindFrom(t, s, k, j) == IF j > TRY THEN 0 ELSE IF Good(t, TrainData(s * 50 + j, t.n, k)) THEN j ELSE FindFrom(t, s, k, j + 1)
FindData(t, s, k) == FindFrom(t, s, k, 1)   \* 0 when no usable data set was found

(* ------------------------------ machine ------------------------------ *)
Init == InitCfg /\ ab = <<>> /\ hist = <<>>

RECURSIVE Pre(_, _)    \* before training: "yes" usable, "no" must refuse, "free" not specified
Pre(t, inMulti) ==
   CASE t.k \in {"shift", "scalerow"} -> "yes"
     [] t.k = "null" -> "free"
     [] t.k = "user" -> "free"
     [] t.k = "scale" -> IF inMulti THEN "free" ELSE "no"
     [] t.k = "ss" -> IF t.cen \/ t.scl # "none" THEN "no" ELSE "free"
     [] t.k = "pipe" -> IF \E i \in 1..Len(t.parts) : Pre(t.parts[i], inMulti) = "no" THEN "no" ELSE "free"
     [] t.k = "multi" -> IF \E i \in 1..Len(t.parts) : Pre(t.parts[i], TRUE) = "no" THEN "no" ELSE "free"

StepSeed == cfg.s * 31 + Len(hist) * 7 + cfg.c.i[1]

Obs(t, f0) ==
   IF f0 = <<>> /\ Pre(t, FALSE) # "yes" THEN [trained |-> Pre(t, FALSE), n |-> t.n]
   ELSE
   LET f == IF f0 = <<>> THEN Learn(t, IZero(t.n, 1)) ELSE f0
       n == t.n
       ss == StepSeed + 1000
       X == ToR(RandMat(ss, n, 3, -5, 5))
       Z == ToR(RandMat(ss + 1, n, 3, -3, 3))
       m == IF t.k = "multi" THEN t.parts[1].n ELSE n
       nl == 1 + (ss % m)
       locs == SubSeq(Perm(ss, m), 1, nl)
       lr == LocRows(t, locs)
       fl == At(f, lr)
       ZL == ToR(RandMat(ss + 2, Len(lr), 2, -3, 3))
       base == [trained |-> "yes", n |-> n, X |-> X, TX |-> ApplyAB(f, X), Z |-> Z, IZ |-> InvAB(f, Z), DX |-> IF HasDdt(t) THEN DdtAB(f, X) ELSE <<>>]
   IN  IF LocsAllowed(t)
       THEN [locs |-> locs, lrows |-> lr, ZL |-> ZL, IZL |-> InvAB(fl, ZL)] @@ base ELSE base

ObsBad(o) == o.trained = "yes" /\ (BadM(o.TX) \/ BadM(o.IZ) \/ BadM(o.DX) \/ ("IZL" \in DOMAIN o /\ BadM(o.IZL)))

RECURSIVE Attrs(_, _)
Attrs(t, X) == IF t.k = "ss" THEN LET f == LearnSS(t, X) IN
                  [cen |-> t.cen, scl |-> t.scl, byrow |-> t.byrow, mean |-> f.mean, scale |-> f.scale, shift |-> f.shift]
               ELSE [cen |-> FALSE]

Fit(via, dn) ==
   LET t0 == Tree(cfg.c, cfg.s)
       t == IF dn = 0 THEN t0 ELSE Resize(t0, t0.n + dn)
       j == FindData(t, StepSeed, cfg.k)
   IN  /\ dn = 0 \/ Resizable(t0)
       /\ j > 0
       /\ LET X == TrainData(StepSeed * 50 + j, t.n, cfg.k)
              f == Learn(t, X)
              g == [a |-> f.a, b |-> f.b]
              Y == ApplyAB(g, X)
              o == TLCEval(Obs(t, g))
          IN /\ ~ObsBad(o)
             /\ ab' = g
             /\ hist' = Append(hist, [a |-> "fit", via |-> via, X |-> X, Y |-> Y, attrs |-> Attrs(t, X), n |-> t.n, obs |-> o])
             /\ UNCHANGED cfg

(* a refused call: one-dimensional training data, or data with an impossible *)
(* number of rows; nothing changes                                           *)
CurTree == LET t0 == Tree(cfg.c, cfg.s) IN IF ab = <<>> \/ Len(ab.a) = t0.n THEN t0 ELSE Resize(t0, Len(ab.a))
BadFit == LET o == TLCEval(Obs(CurTree, ab)) IN
          /\ ~ObsBad(o)
          /\ ab' = ab
          /\ hist' = Append(hist, [a |-> "badfit", n |-> CurTree.n, obs |-> o])
          /\ UNCHANGED cfg

Vias == {"fit", "fit_transform", "inplace"}
Next == /\ Len(hist) < MaxLen
        /\ \/ Fit(<<"fit", "fit_transform", "inplace">>[1 + ((StepSeed + Len(hist)) % 3)], 0)
           \/ Len(hist) > 0 /\ Fit(<<"fit", "fit_transform", "inplace">>[1 + ((StepSeed + 1) % 3)], 1)
           \/ (Len(hist) < MaxLen - 1 /\ BadFit)
Spec == Init /\ [][Next]_vars

(* ---------------------- checks of the specification ------------------ *)
FitSteps == {i \in 1..Len(hist) : hist[i].a = "fit"}
CurT(i) == LET t0 == Tree(cfg.c, cfg.s) IN IF hist[i].n = t0.n THEN t0 ELSE Resize(t0, hist[i].n)
DocStats == \A i \in FitSteps : CurT(i).k = "ss" => StatsHold(CurT(i), hist[i].X, hist[i].Y)
RoundTrip == \A i \in 1..Len(hist) : hist[i].obs.trained = "yes" /\ ab # <<>> /\ i = Len(hist) =>
   LET Y == ApplyAB(ab, hist[i].obs.X) IN ~BadM(Y) => InvAB(ab, Y) = hist[i].obs.X
FitSound == \A i \in FitSteps : ~BadM(hist[i].Y)
Emit == (Len(hist) = MaxLen /\ FitSteps # {}) =>
   PrintT("B@" \o ToJson([tree |-> Tree(cfg.c, cfg.s), sh |-> cfg.c.sh, pre |-> Pre(Tree(cfg.c, cfg.s), FALSE), s |-> cfg.s, hist |-> hist]))
=============================================================================
