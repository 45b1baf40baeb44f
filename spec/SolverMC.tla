------------------------------ MODULE SolverMC ------------------------------
(***************************************************************************)
(* The life of one least-squares solver object: fit (to data of several    *)
(* shapes), refused fits, changes of the regulariser / truncation / method *)
(* (accepted or refused), copies, save+load, reset.  At every point the    *)
(* answer is determined by the *current* data and settings alone:          *)
(*   dat  - which data set is current (0: none)                            *)
(*   reg  - which regulariser is current (0: none), or for the truncated   *)
(*          SVD the number of modes (NoneN: all), of which req is what was  *)
(*          asked for, and reg what that means for the current data         *)
(***************************************************************************)
EXTENDS Lstsq, Json
CONSTANTS Ks, Dims, Rs, Slack, Seeds, MaxLen, Acts
VARIABLES cfg, head, st, hist
vars == <<cfg, head, st, hist>>

NoneN == 999
Init == \E kd \in Ks : \E d \in Dims : \E r \in Rs : \E sl \in Slack : \E s \in Seeds :
   /\ cfg = [kind |-> kd, d |-> d, r |-> r, sl |-> sl, s |-> s]
   /\ (kd \in {"tls"} => sl >= r)
   /\ (d + sl >= 1)
   /\ head = <<>> /\ st = [dat |-> 0, reg |-> 0, req |-> 0] /\ hist = <<>>

Base == CASE cfg.kind \in {"plain_c", "tik_c", "tikd_c"} -> "svd" [] cfg.kind = "tsvd" -> "svd"
          [] cfg.kind = "tls" -> "tls" [] OTHER -> "raw"
(* data sets: i = 1 base, 2 more rows, 3 one more column, 4 one more output *)
DimsOf(i) == LET d == IF i = 3 THEN cfg.d + 1 ELSE cfg.d
                 r == IF i = 4 THEN cfg.r + 1 ELSE cfg.r
                 k == (IF i = 2 THEN cfg.d + cfg.sl + 2 ELSE d + cfg.sl) + (IF Base = "tls" /\ i = 4 THEN 1 ELSE 0)
             IN [k |-> k, d |-> d, r |-> r]
Sd == cfg.s * 71 + cfg.d * 5 + cfg.r
SVDData(i) ==
   LET n == DimsOf(i)  q == Min2(n.k, n.d)
       Phi == FirstCols(Orth(Sd + i, n.k, 1), q)
       Psi == FirstCols(Orth(Sd + 20 + i, n.d, 1), q)
       sv == Svals(Sd + i, q)
       Z == ToR(RandMat(Sd + 40 + i, n.r, n.k, -3, 3))
   IN [D |-> FromSVD(Phi, sv, Psi), Z |-> Z, sv |-> sv,
       ans |-> [m \in 1..q |-> Trunc(Phi, sv, Psi, Z, m)],
       ansg |-> [m \in 1..q |-> TruncReg(Phi, sv, Psi, Z, m, I(2))], err2 |-> R0]
TLSData(i) ==
   LET n == DimsOf(i)  w == n.d + n.r
       Phi == FirstCols(Orth(Sd + i, n.k, 1), w)
       ok(j) == LET P == Orth(Sd + 20 + i + j * 3, w, 2)
                    ZZ == [a \in 1..n.r |-> [b \in 1..n.r |-> P[n.d + a][n.d + b]]] IN
                (n.r = 1 /\ ZZ[1][1][1] # 0) \/
                (n.r = 2 /\ RSub(RMul(ZZ[1][1], ZZ[2][2]), RMul(ZZ[1][2], ZZ[2][1]))[1] # 0)
                \/ (n.r = 3 /\ LET a == ZZ IN
                     RAdd(RSub(RMul(a[1][1], RSub(RMul(a[2][2], a[3][3]), RMul(a[2][3], a[3][2]))),
                               RMul(a[1][2], RSub(RMul(a[2][1], a[3][3]), RMul(a[2][3], a[3][1])))),
                          RMul(a[1][3], RSub(RMul(a[2][1], a[3][2]), RMul(a[2][2], a[3][1]))))[1] # 0)
       j0 == CHOOSE j \in 0..60 : ok(j) /\ \A x \in 0..(j - 1) : ~ok(x)
       Psi == Orth(Sd + 20 + i + j0 * 3, w, 2)
       sv == Svals(Sd + i, w)
       M == FromSVD(Phi, sv, Psi)
   IN [D |-> [a \in 1..n.k |-> [b \in 1..n.d |-> M[a][b]]],
       Z |-> [b \in 1..n.r |-> [a \in 1..n.k |-> M[a][n.d + b]]], sv |-> sv,
       ans |-> <<TLSAnswer(Psi, n.d, n.r)>>, ansg |-> <<>>, err2 |-> TLSError2(sv, n.d)]
RawData(i) ==
   LET n == DimsOf(i)  q == Min2(n.k, n.d)
       D(j) == RandMat(Sd + i * 3 + j * 17, n.k, n.d, -3, 3)
       ok(j) == RankLB(D(j)) = q
       j0 == CHOOSE j \in 0..60 : ok(j) /\ \A x \in 0..(j - 1) : ~ok(x)
   IN [D |-> ToR(D(j0)), Z |-> ToR(RandMat(Sd + 40 + i, n.r, n.k, -3, 3)), sv |-> <<>>, ans |-> <<>>, ansg |-> <<>>, err2 |-> R0]
Data(i) == LET x == CASE Base = "svd" -> SVDData(i) [] Base = "tls" -> TLSData(i) [] OTHER -> RawData(i)
               n == DimsOf(i)
               O == ToR(RandMat(Sd + 60 + i, n.r, n.d, -2, 2))
           IN [D |-> x.D, Z |-> x.Z, sv |-> x.sv, ans |-> x.ans, ansg |-> x.ansg, err2 |-> x.err2,
               O |-> O, res |-> Residual(x.D, x.Z, O)]

(* regularisers: 1, 2 fit data 1 and 2; 3 fits data 3; 4 fits data 4        *)
(* symmetric, upper triangular, or any matrix (a regulariser need not be symmetric or invertible) *)
SPD(s, d) == LET M == RandMat(s, d, d, -1, 1) IN IAdd(IMul(T(M), M), IEye(d))
Gamma(s, d) == CASE (s % 3) = 0 -> SPD(s, d)
   [] (s % 3) = 1 -> [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 ELSE IF i < j THEN Pick(s, i, j, -2, 2) ELSE 0]]
   [] OTHER -> RandMat(s, d, d, -2, 2)
DiagR(s, d) == LET v == RandVec(s, d, 0, 3) IN [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN v[i] ELSE 0]]
RegDim(j) == IF j = 3 THEN cfg.d + 1 ELSE cfg.d
RegLen(j) == IF j = 4 THEN cfg.r + 1 ELSE cfg.r
KindR == CASE cfg.kind = "tik_c" -> "tik" [] cfg.kind = "tikd_c" -> "tikd" [] cfg.kind = "plain_c" -> "plain" [] OTHER -> cfg.kind
(* G: one matrix (d x d) per row of the answer                              *)
Reg(j) == CASE KindR = "l2" -> [form |-> "scalar", lam |-> <<Rat(1 + ((j * 3 + cfg.s) % 5), 2)>>, G |-> <<>>]
   [] KindR = "l2d" -> [form |-> "vector", lam |-> [i \in 1..RegLen(j) |-> Rat(1 + ((i * 2 + j + cfg.s) % 5), 2)], G |-> <<>>]
   [] cfg.kind \in {"tik_c", "tikd_c"} -> [form |-> "dense", lam |-> <<>>,
        G |-> [i \in 1..(IF KindR = "tik" THEN 1 ELSE RegLen(j)) |-> ToR(IScale(2, IEye(RegDim(j))))]]
   [] KindR \in {"tik", "tikd"} ->
        LET diag == ((j + cfg.s) % 2) = 0 IN
        [form |-> (IF diag THEN "diag" ELSE "dense"), lam |-> <<>>,
         G |-> [i \in 1..(IF KindR = "tik" THEN 1 ELSE RegLen(j)) |->
                  ToR(IF diag THEN DiagR(Sd + j * 5 + i, RegDim(j)) ELSE Gamma(Sd + j * 5 + i, RegDim(j)))]]
   [] OTHER -> [form |-> "none", lam |-> <<>>, G |-> <<>>]
(* regulariser j as one matrix per row of the answer of data i               *)
RowReg(j, i) == LET n == DimsOf(i)  g == Reg(j) IN
   CASE KindR = "l2" -> [a \in 1..n.r |-> ScaledEye(g.lam[1], n.d)]
     [] KindR = "l2d" -> [a \in 1..n.r |-> ScaledEye(g.lam[a], n.d)]
     [] KindR = "tik" -> [a \in 1..n.r |-> g.G[1]]
     [] KindR = "tikd" -> g.G
CompatRD(j, i) == LET n == DimsOf(i) IN
   CASE KindR = "l2" -> TRUE [] KindR = "l2d" -> RegLen(j) = n.r
     [] KindR = "tik" -> RegDim(j) = n.d
     [] KindR = "tikd" -> RegDim(j) = n.d /\ RegLen(j) = n.r [] OTHER -> TRUE

HeadRec == [data |-> [i \in 1..4 |-> Data(i)],
         regs |-> IF Regularised(KindR) THEN
            [j \in 1..4 |-> [form |-> Reg(j).form, lam |-> Reg(j).lam, G |-> Reg(j).G,
                             part |-> [i \in 1..4 |-> IF CompatRD(j, i) THEN RegPart(RowReg(j, i), Data(i).O) ELSE <<>>]]]
            ELSE <<>>]
Gen == /\ head = <<>> /\ head' = TLCEval(HeadRec) /\ UNCHANGED <<cfg, hist>>
       /\ st' = (LET n == IF cfg.kind = "tsvd" THEN NoneN ELSE 0 IN [dat |-> 0, reg |-> n, req |-> n])

MaxModes(i) == Min2(DimsOf(i).k, DimsOf(i).d)
Fits(i) == IF cfg.kind = "tsvd" THEN ~(st.req # NoneN /\ st.req <= 0 /\ MaxModes(i) + st.req < 1)
           ELSE st.reg = 0 \/ CompatRD(st.reg, i)
AfterFit(i) == IF cfg.kind # "tsvd" THEN [st EXCEPT !.dat = i]
   ELSE [st EXCEPT !.dat = i, !.reg = IF st.req = NoneN THEN MaxModes(i)
                                      ELSE IF st.req <= 0 THEN MaxModes(i) + st.req ELSE Min2(st.req, MaxModes(i))]
Do(a, ok, new) == /\ st' = IF ok THEN new ELSE st
                  /\ hist' = Append(hist, [a |-> a, ok |-> ok, st |-> IF ok THEN new ELSE st])
                  /\ UNCHANGED <<cfg, head>>
Fit == \E i \in 1..4 : Do([n |-> "fit", v |-> i], Fits(i), AfterFit(i))
BadFit == \E i \in 1..2 : Do([n |-> "badfit", v |-> i], FALSE, st)
Modes == {NoneN, 1, 2, 5, 0, -1, -4}
SetReg == CASE Regularised(KindR) ->
                 (\E j \in 0..4 : Do([n |-> "set", v |-> j], j = 0 \/ st.dat = 0 \/ CompatRD(j, st.dat), [st EXCEPT !.reg = j, !.req = j]))
            [] cfg.kind = "tsvd" ->
                 (\E n \in Modes : LET mx == IF st.dat = 0 THEN 0 ELSE MaxModes(st.dat)
                                       v == IF st.dat = 0 THEN n ELSE IF n = NoneN THEN mx ELSE IF n <= 0 THEN mx + n ELSE n
                                       ok == st.dat = 0 \/ (v >= 1 /\ v <= mx)
                                   IN Do([n |-> "set", v |-> n], ok, [st EXCEPT !.reg = v, !.req = n]))
            [] OTHER -> FALSE
BadSet == (Regularised(KindR) \/ cfg.kind = "tsvd") /\ (\E v \in 1..2 : Do([n |-> "badset", v |-> v], FALSE, st))
Toggle == KindR \in {"tik", "tikd"} /\ (\E v \in 0..1 : Do([n |-> "method", v |-> v], v = 0, st))
Copy == Do([n |-> "copy", v |-> 0], TRUE, st)
SaveLoad == Do([n |-> "saveload", v |-> 0], TRUE, st)
Reset == Do([n |-> "reset", v |-> 0], TRUE, [dat |-> 0, reg |-> IF cfg.kind = "tsvd" THEN st.req ELSE 0, req |-> IF cfg.kind = "tsvd" THEN st.req ELSE 0])
Step == /\ head # <<>> /\ Len(hist) < MaxLen
        /\ \/ ("fit" \in Acts /\ Fit)
           \/ ("badfit" \in Acts /\ BadFit)
           \/ ("set" \in Acts /\ SetReg)
           \/ ("badset" \in Acts /\ BadSet)
           \/ ("method" \in Acts /\ Toggle)
           \/ ("copy" \in Acts /\ Copy)
           \/ ("saveload" \in Acts /\ SaveLoad)
           \/ ("reset" \in Acts /\ Reset)
Next == Gen \/ Step
Spec == Init /\ [][Next]_vars

NoBad == head # <<>> => \A i \in 1..4 : ~BadM(head.data[i].D) /\ ~BadM(head.data[i].Z)
(* design-level: the SVD answers satisfy what defines them                   *)
(* the full-mode answer solves the normal equations                          *)
SVDSound == (head # <<>> /\ Base = "svd") => \A i \in 1..4 :
   LET x == head.data[i]  O == x.ans[Len(x.ans)] IN
   BadM(O) \/ RMatMul(RMatSub(RMatMul(O, T(x.D)), x.Z), x.D) = [a \in 1..Len(O) |-> [b \in 1..NCols(O) |-> R0]]
(* current data and regulariser always fit each other                        *)
Consistent == (head # <<>> /\ st.dat # 0) =>
   IF cfg.kind = "tsvd" THEN st.reg \in 1..MaxModes(st.dat) ELSE st.reg = 0 \/ CompatRD(st.reg, st.dat)
Useful == \E i \in 1..Len(hist) : hist[i].st.dat # 0
Emit == (Len(hist) = MaxLen /\ Useful) => PrintT("B@" \o ToJson([cfg |-> cfg, head |-> head, hist |-> hist]))
=============================================================================
