------------------------------ MODULE SelectMC ------------------------------
(***************************************************************************)
(* Regularisation selection.  Every candidate yields, for every training    *)
(* trajectory, a prediction over the training and the testing horizon that  *)
(* follows the data except for what its script says: an error d in entry i  *)
(* of training snapshot p, an excursion td at (continuous: from) testing    *)
(* position tp, or a failure (nan, inf, incomplete) at some position.       *)
(* Testing positions count iterations (discrete) or quarters of a time step *)
(* (continuous).  Additional test cases have scripts of their own.          *)
(*                                                                          *)
(* The selection tries the candidates one after the other; what it keeps is *)
(* the least mean relative error of the acceptable ones.  A second round    *)
(* selects again, with other data of another dimension, on the same object. *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Kinds, Trajs, Cands, Seeds, Rounds, Margins
VARIABLES cfg, rd, cur, c, best, hist
vars == <<cfg, rd, cur, c, best, hist>>

None == <<-1, 1>>
Init == \E kd \in Kinds : \E s \in Trajs : \E nc \in Cands : \E sd \in Seeds : \E mg \in Margins : \E const \in BOOLEAN :
   /\ cfg = [kind |-> kd, s |-> s, nc |-> nc, seed |-> sd, margin |-> mg, const |-> const]
   /\ rd = 1 /\ cur = <<>> /\ c = 0 /\ best = None /\ hist = <<>>

Disc == cfg.kind = "disc"
Sd == Hash2(Hash2(cfg.seed, cfg.s * 10 + cfg.nc), rd * 7 + cfg.margin[1] + (IF cfg.const THEN 50 ELSE 0) + (IF Disc THEN 100 ELSE 0))
K == 4 + (Sd % 3)
Rr == (IF rd = 1 THEN 2 ELSE 3)
Horizon == IF Disc THEN (Hash2(Sd, 5) % 4) ELSE (Hash2(Sd, 5) % 7)

(* data: the first entry tells the trajectories apart; the norms are whole   *)
Raw(l, j) == LET M == RandMat(Hash3(Sd, l, j), Rr, K, -3, 3) IN
   TLCEval([a \in 1..Rr |-> [b \in 1..K |->
      LET b1 == IF cfg.const /\ l = 1 THEN 1 ELSE b IN IF a = 1 /\ b1 = 1 THEN 4 + l ELSE M[a][b1]]])
W(b) == IF Disc THEN 1 ELSE IF b = 1 \/ b = K THEN 1 ELSE 2
Norm2(M) == LET t == ISum([b \in 1..K |-> W(b) * ISum([a \in 1..Rr |-> M[a][b] * M[a][b]])]) IN
            IF Disc THEN t ELSE IF t % 2 = 1 THEN 2 ELSE t \div 2
Data(l) == LET js == {j \in 0..150 : IsSquare(Norm2(Raw(l, j)))} IN
   IF js = {} THEN <<>> ELSE Raw(l, CHOOSE j \in js : \A i \in js : j <= i)

H(x, l, y) == Hash3(Hash2(Sd, 1000 + x), l, y)
TPos(h) == 1 + ((h \div 3) % (Horizon + 2))
Script(x, l) ==
   LET sel == (H(x, l, 1) \div 5) % 12  h(y) == H(x, l, y) \div 11
       none == [i |-> 1 + (h(2) % Rr), p |-> 2, d |-> 0, tp |-> 1, td |-> 0, bad |-> "", bin |-> "test", bp |-> 1]
       dv == [none EXCEPT !.p = 2 + (h(3) % (IF Disc THEN K - 1 ELSE K - 2)), !.d = (h(4) % 9) - 4]
       tt == [dv EXCEPT !.tp = TPos(h(5)), !.td = (h(6) % 31) - 15]
       bd(kind) == [dv EXCEPT !.bad = kind, !.bin = IF h(7) % 3 = 0 THEN "train" ELSE "test",
                              !.bp = IF h(7) % 3 = 0 THEN 2 + (h(8) % (K - 1)) ELSE TPos(h(8))]
   IN CASE sel < 6 -> dv [] sel \in 6..8 -> tt [] sel = 9 -> bd("nan") [] sel = 10 -> bd("inf")
        [] OTHER -> IF Disc THEN none ELSE bd("short")

(* additional test cases: initial condition, length, bound (0: none), scripts *)
NT == Hash2(Sd, 9) % 3
TLen(q) == 3 + (Hash3(Sd, 60, q) % 3)
TBound(q) == (Hash3(Sd, 61, q) \div 3) % 4
TScript(x, q) ==
   LET sel == (H(x, 70 + q, 1) \div 5) % 10  h(y) == H(x, 70 + q, y) \div 11
       none == [i |-> 1 + (h(2) % Rr), p |-> 2, d |-> 0, bad |-> ""]
   IN CASE sel < 5 -> none [] sel \in 5..7 -> [none EXCEPT !.p = 2 + (h(3) % (TLen(q) - 1)), !.d = (h(4) % 9) - 4]
        [] sel = 8 -> [none EXCEPT !.p = 2 + (h(3) % (TLen(q) - 1)), !.bad = "nan"]
        [] OTHER -> [none EXCEPT !.p = 2 + (h(3) % (TLen(q) - 1)), !.bad = IF Disc THEN "inf" ELSE "short"]
TFails(x, q) == LET t == TScript(x, q) IN t.bad # "" \/ (TBound(q) # 0 /\ Abs(t.d) > TBound(q))

(* bounds of stability, with denominators cleared                            *)
RowSum(D, i) == ISum([j \in 1..K |-> D[i][j]])
Spread(D) == RMaxOf([a \in 1..Rr |-> RMaxOf([j \in 1..K |-> I(Abs(K * D[a][j] - RowSum(D, a)))])])[1]
Beyond(D, i, x) == Spread(D) # 0 /\ Abs(K * x - RowSum(D, i)) * cfg.margin[2] > cfg.margin[1] * Spread(D)
Fails(x, l) == LET D == cur.data[l]  t == cur.scripts[x][l] IN
   \/ \E a \in 1..Rr : \E j \in 1..K : Beyond(D, a, D[a][j])
   \/ t.d # 0 /\ Beyond(D, t.i, D[t.i][t.p] + t.d)
   \/ t.td # 0 /\ t.tp <= Horizon /\ Beyond(D, t.i, D[t.i][K] + t.td)
   \/ t.bad # "" /\ (t.bin = "train" \/ t.bp <= Horizon)
(* exactly on the bound: only decided where the mean is exact in binary      *)
OnEdge(D, i, x) == K # 4 /\ Abs(K * x - RowSum(D, i)) * cfg.margin[2] = cfg.margin[1] * Spread(D)
Edge == \E x \in 1..cfg.nc : \E l \in 1..cfg.s : LET D == cur.data[l]  t == cur.scripts[x][l] IN
   (t.d # 0 /\ OnEdge(D, t.i, D[t.i][t.p] + t.d)) \/ (t.td # 0 /\ OnEdge(D, t.i, D[t.i][K] + t.td))
Norm(l) == ISqrt(Norm2(cur.data[l]))
Err(x) == IF (\E l \in 1..cfg.s : Fails(x, l)) \/ (\E q \in 1..Len(cur.tests) : cur.tests[q].fails[x]) THEN None
          ELSE RDiv(RSum([l \in 1..cfg.s |-> Rat(Abs(cur.scripts[x][l].d), Norm(l))]), I(cfg.s))

(* distinct exponents, in any order                                          *)
Exps == LET p == Perm(Sd, 8) IN SubSeq(p, 1, cfg.nc)
Start == /\ cur = <<>> /\ rd <= Rounds
         /\ cur' = TLCEval([k |-> K, r |-> Rr, horizon |-> Horizon, exps |-> Exps, best |-> None,
                            data |-> [l \in 1..cfg.s |-> Data(l)],
                            scripts |-> [x \in 1..cfg.nc |-> [l \in 1..cfg.s |-> Script(x, l)]],
                            tests |-> [q \in 1..NT |-> [len |-> TLen(q), bound |-> TBound(q), ic |-> [a \in 1..Rr |-> IF a = 1 THEN 20 + q ELSE q - a],
                                                        scripts |-> [x \in 1..cfg.nc |-> TScript(x, q)],
                                                        fails |-> [x \in 1..cfg.nc |-> TFails(x, q)]]],
                            errs |-> <<>>])
         /\ c' = 0 /\ best' = None /\ UNCHANGED <<cfg, rd, hist>>
Usable == IF \E l \in 1..cfg.s : cur.data[l] = <<>> THEN FALSE ELSE ~Edge
Try == /\ cur # <<>> /\ c < cfg.nc /\ Usable = TRUE
       /\ c' = c + 1
       /\ LET e == Err(c + 1) IN
          /\ cur' = [cur EXCEPT !.errs = Append(@, e)]
          /\ best' = IF e = None THEN best ELSE IF best = None \/ RLt(e, best) THEN e ELSE best
       /\ UNCHANGED <<cfg, rd, hist>>
Finish == /\ cur # <<>> /\ c = cfg.nc
          /\ hist' = Append(hist, [cur EXCEPT !.best = best]) /\ rd' = rd + 1 /\ cur' = <<>> /\ c' = 0 /\ best' = None /\ UNCHANGED cfg
Next == Start \/ Try \/ Finish
Spec == Init /\ [][Next]_vars

(* the value kept is the least of the acceptable ones so far                 *)
Least == cur # <<>> => /\ (best = None <=> \A x \in 1..c : cur.errs[x] = None)
                       /\ best # None => /\ \E x \in 1..c : cur.errs[x] = best
                                         /\ \A x \in 1..c : cur.errs[x] = None \/ RLe(best, cur.errs[x])
NoBad == cur # <<>> => \A x \in 1..c : ~IsBad(cur.errs[x])
Emit == (rd = Rounds + 1 /\ hist # <<>>) => PrintT("B@" \o ToJson([cfg |-> cfg, rounds |-> hist]))
=============================================================================
