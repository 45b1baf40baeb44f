------------------------------ MODULE BayesMC ------------------------------
(***************************************************************************)
(* The life of a Bayesian reduced-order model: fit to one of several data  *)
(* sets, change the regulariser, draw operators, predict (which draws      *)
(* first), keep / save and load / copy the posterior, refused calls.       *)
(*                                                                         *)
(* The posterior of row i is normal with                                   *)
(*   mean o_i:   (D'D + Gi'Gi) o_i = D' z_i                                *)
(*   covariance: sig_i (D'D + Gi'Gi)^-1,                                   *)
(*   sig_i = (|D o_i - z_i|^2 + |Gi o_i|^2) / k                            *)
(* with the data and the regulariser of the last fit, whatever happened    *)
(* since.  The model holds the mean after a fit and the drawn matrix after *)
(* a draw; known operators never change.                                   *)
(*   dat  data set of the last fit       ts  regulariser of the last fit   *)
(*   now  regulariser in force           ops 0: none, -1: mean, j: draw j  *)
(*   keep <<dat, ts>> of the posterior kept aside                          *)
(***************************************************************************)
EXTENDS Model, Json
CONSTANTS Forms, Kinds, Solvers, Rs, Ms, Seeds, MaxLen, Acts, Stride
VARIABLES cfg, head, st, hist, h
vars == <<cfg, head, st, hist, h>>

NeedIn(f) == \E k \in 1..Len(f) : NeedsInput(f[k])
Unknown(f, mask) == {k \in 1..Len(f) : ~mask[k]}
UniqueUnknown(f, mask) == \A i, j \in Unknown(f, mask) : f[i] = f[j] => i = j
NRegs == 2
NData == 2
NDraws == 2

TrueOps(c) == TLCEval([k \in 1..Len(c.f) |-> RandOp(c.f[k], c.r, IF NeedsInput(c.f[k]) THEN c.m ELSE 0, c.s * 31 + k * 7 + c.r)])
Dim == DataDim(Select(TrueOps(cfg), cfg.mask, FALSE), cfg.r, cfg.m)
Sd == cfg.s * 101 + cfg.r * 7 + Len(cfg.f)

(* regulariser j as one integer matrix per row                              *)
Upper(s, d) == LET M == RandMat(s, d, d, -2, 2) IN
   TLCEval([i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 + ((M[i][j] * M[i][j]) % 3) ELSE IF i < j THEN M[i][j] ELSE 0]])
Lam(j, i) == 1 + ((j * 2 + i + cfg.s) % 3)
Reg(j) == CASE cfg.sol = "l2" -> [i \in 1..cfg.r |-> IScale(Lam(j, 0), IEye(Dim))]
   [] cfg.sol = "l2d" -> [i \in 1..cfg.r |-> IScale(Lam(j, i), IEye(Dim))]
   [] cfg.sol = "tik" -> [i \in 1..cfg.r |-> Upper(Sd + j, Dim)]
   [] OTHER -> [i \in 1..cfg.r |-> Upper(Sd + j + 10 * i, Dim)]

NumRows(d) == Dim + 1 + d
Data(d) ==
   LET ops == TrueOps(cfg)
       unk == Select(ops, cfg.mask, FALSE)
       kn  == Select(ops, cfg.mask, TRUE)
       Q == RandMat(Sd + d * 977, cfg.r, NumRows(d), -2, 2)
       U == IF cfg.m = 0 THEN <<>> ELSE RandMat(Sd + d * 977 + 1, cfg.m, NumRows(d), -2, 2)
       Z == RandMat(Sd + d * 977 + 2, cfg.r, NumRows(d), -4, 4)
   IN [Q |-> Q, U |-> U, Z |-> Z, D |-> DataMatrix(unk, Q, U), R |-> ISub(Z, RhsK(kn, Q, U))]
(* posterior of data x under regulariser G                                  *)
Post(x, G) ==
   LET k == Len(x.D)
       DTD == IMul(T(x.D), x.D)
       row(i) == LET M == IAdd(DTD, IMul(T(G[i]), G[i]))
                     b == IMulV(T(x.D), x.R[i])
                     o == Col(RSolve(ToR(M), [a \in 1..Len(b) |-> <<I(b[a])>>]), 1)
                     e == RVSub(RMulV(ToR(x.D), o), ToRV(x.R[i]))
                     sig == RDiv(RAdd(RNorm2V(e), RNorm2V(RMulV(ToR(G[i]), o))), I(k))
                 IN [mean |-> o, sig |-> sig, inv |-> RInvM(ToR(M)), M |-> M]
   IN TLCEval([i \in 1..Len(x.R) |-> row(i)])

(* what is drawn, as operators of the model                                  *)
DrawOps(j) == TLCEval([k \in 1..Len(cfg.f) |-> IF cfg.mask[k] THEN TrueOps(cfg)[k]
                 ELSE [TrueOps(cfg)[k] EXCEPT !.E = RandMat(Sd + 50 + j + k * 11, cfg.r, OpDim(cfg.f[k], cfg.r, cfg.m), -1, 1)]])
Steps == 4
Draw(j) == LET ops == DrawOps(j)
               q0 == RandVec(Sd + j, cfg.r, -1, 1)
               U == IF cfg.m = 0 THEN <<>> ELSE RandMat(Sd + 70 + j, cfg.m, Steps, -1, 1)
           IN [M |-> OpMatrix(Select(ops, cfg.mask, FALSE)), E |-> [k \in 1..Len(ops) |-> ops[k].E], q0 |-> q0, U |-> U,
               traj |-> IF cfg.kd = "d" THEN Trajectory(ops, q0, U, Steps, 10000) ELSE <<>>]

Init == \E f \in Forms : \E kd \in Kinds : \E sol \in Solvers : \E r \in Rs : \E m \in Ms : \E s \in Seeds :
        \E mask \in [1..Len(f) -> BOOLEAN] :
   /\ (m > 0) = NeedIn(f)
   /\ UniqueUnknown(f, mask) /\ Unknown(f, mask) # {}
   /\ cfg = [f |-> f, kd |-> kd, sol |-> sol, r |-> r, m |-> m, s |-> s, mask |-> mask]
   /\ Dim <= 4
   /\ head = <<>> /\ hist = <<>> /\ h = Hash2(Hash2(s, Len(f)), r)
   /\ st = [dat |-> 0, ts |-> 1, now |-> 1, ops |-> 0, keep |-> <<0, 0>>]
Gen == /\ head = <<>>
       /\ head' = TLCEval([E |-> [k \in 1..Len(cfg.f) |-> TrueOps(cfg)[k].E], data |-> [d \in 1..NData |-> Data(d)],
                           regs |-> [j \in 1..NRegs |-> Reg(j)],
                           post |-> [d \in 1..NData |-> [j \in 1..NRegs |-> Post(Data(d), Reg(j))]],
                           draws |-> [j \in 1..NDraws |-> Draw(j)]])
       /\ UNCHANGED <<cfg, st, hist, h>>
Do(a, v, new, code) ==
   LET g == Hash2(h, code) IN
   /\ ((g \div 7) % Stride) = 0
   /\ h' = g
   /\ st' = new /\ hist' = Append(hist, [a |-> a, v |-> v, st |-> new]) /\ UNCHANGED <<cfg, head>>
Fit == \E d \in 1..NData : Do("fit", d, [st EXCEPT !.dat = d, !.ts = st.now, !.ops = -1], d)
Set == \E j \in 1..NRegs : j # st.now /\ Do("set", j, [st EXCEPT !.now = j], 10 + j)
Drw == st.dat > 0 /\ (\E j \in 1..NDraws : Do("draw", j, [st EXCEPT !.ops = j], 20 + j))
Pred == st.dat > 0 /\ (\E j \in 1..NDraws : Do("predict", j, [st EXCEPT !.ops = j], 30 + j))
Keep == st.dat > 0 /\ (\E w \in 1..3 : Do("keep", w, [st EXCEPT !.keep = <<st.dat, st.ts>>], 40 + w))
Refused == \E k \in 1..4 : Do("bad", k, st, 50 + k)
Step == /\ head # <<>> /\ Len(hist) < MaxLen
        /\ \/ Fit \/ ("set" \in Acts /\ Set) \/ ("draw" \in Acts /\ Drw) \/ ("predict" \in Acts /\ Pred)
           \/ ("keep" \in Acts /\ Keep) \/ ("bad" \in Acts /\ Refused)
Next == Gen \/ Step
Spec == Init /\ [][Next]_vars

(* the residual at the minimum: sig k = z'z - o'D'z                          *)
Minimum == head # <<>> => \A d \in 1..NData : \A j \in 1..NRegs : \A i \in 1..cfg.r :
   LET x == head.data[d]  p == head.post[d][j][i]  b == IMulV(T(x.D), x.R[i])
       rhs == RSub(I(IDot(x.R[i], x.R[i])), RDot(p.mean, ToRV(b)))
       lhs == RMul(p.sig, I(Len(x.D)))
   IN IsBad(lhs) \/ IsBad(rhs) \/ lhs = rhs
(* covariance and precision are inverse to each other and symmetric          *)
Inverse == head # <<>> => \A d \in 1..NData : \A j \in 1..NRegs : \A i \in 1..cfg.r :
   LET p == head.post[d][j][i] IN BadM(p.inv) \/ (T(p.inv) = p.inv /\ RMatMul(p.inv, ToR(p.M)) = ToR(IEye(Dim)))
(* the posterior is that of a data set and a regulariser that were in force  *)
Determined == st.dat = 0 <=> st.ops = 0
Emit == (Len(hist) = MaxLen /\ st.dat > 0) => PrintT("B@" \o ToJson([cfg |-> cfg, head |-> head, hist |-> hist]))
=============================================================================
