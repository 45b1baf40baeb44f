------------------------------ MODULE LiftMC ------------------------------
(***************************************************************************)
(* Lifting maps (opinf.lift): q -> (q^p1, q^p2, ...), rows stacked in the   *)
(* given order; lift_ddts by the chain rule; unlift inverts.                *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Ns, Ks, Seeds, MaxVars
VARIABLES cfg, hist
vars == <<cfg, hist>>

(* orders as rationals; denominators 1 or 2 *)
OrderList == << <<1, 1>>, <<2, 1>>, <<3, 1>>, <<0, 1>>, <<-1, 1>>, <<1, 2>>, <<-2, 1>>, <<5, 1>>, <<4, 1>>, <<-1, 2>>, <<3, 2>>, <<-3, 1>> >>
NO == Len(OrderList)
Orders(ii) == TLCEval([j \in 1..Len(ii) |-> OrderList[ii[j]]])

Odd(p) == p[2] = 1 /\ p[1] % 2 = 1
Frac(p) == p[2] = 2
Neg(p) == p[1] < 0
InvertibleOrders(os) == \E j \in 1..Len(os) : os[j][1] # 0

(* q^p for q = b^2 when p is a half-integer *)
Pw(q, p) == IF Frac(p) THEN RPow(RSqrt(q), p[1]) ELSE RPow(q, p[1])
PwD(q, dq, p) == IF p[1] = 0 THEN R0 ELSE RMul(RMul(p, Pw(q, RSub(p, R1))), dq)
Lift(os, Q) == TLCEval(Flatten([v \in 1..Len(os) |-> [i \in 1..Len(Q) |-> [j \in 1..Len(Q[i]) |-> Pw(Q[i][j], os[v])]]]))
LiftD(os, Q, D) == TLCEval(Flatten([v \in 1..Len(os) |-> [i \in 1..Len(Q) |-> [j \in 1..Len(Q[i]) |-> PwD(Q[i][j], D[i][j], os[v])]]]))

(* admissible states: the real powers exist, and unlifting is well defined  *)
Vals == << <<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<-1, 1>>, <<-2, 1>>, <<0, 1>>, <<-1, 2>>, <<3, 2>>, <<-3, 1>> >>
Val(s, i, j, os) ==
   LET x == Vals[Pick(s, i, j, 1, 10)]
       frac == \E v \in 1..Len(os) : Frac(os[v])
       neg == \E v \in 1..Len(os) : Neg(os[v])
       sgn == ~frac /\ (\E v \in 1..Len(os) : Odd(os[v]))
       ddtneg == \E v \in 1..Len(os) : os[v] = <<1, 2>>      \* derivative of the square root at 0
       y == IF sgn THEN x ELSE RAbs(x)
       z == IF (neg \/ ddtneg) /\ y[1] = 0 THEN R1 ELSE y
   IN  IF frac THEN RMul(z, z) ELSE z

Init == /\ hist = <<>>
        /\ \E nv \in 1..MaxVars, n \in Ns, k \in Ks, sd \in Seeds :
             \E ii \in [1..nv -> 1..NO] :
               \* an order may be given more than once
               /\ ((\E a, b \in 1..nv : a < b /\ ii[a] = ii[b]) => Hash3(sd, ii[1], ii[nv] + n) % 3 = 0)
               /\ (nv >= 3 => Hash3(sd + n * 7 + k, ii[1] * 13 + ii[2], ii[3]) % 12 = 0)
               /\ cfg = [ii |-> ii, n |-> n, k |-> k, s |-> sd]
Next ==
   LET os == Orders(cfg.ii)
       ss == cfg.s * 17 + cfg.ii[1] * 3 + cfg.n
       Q == TLCEval([i \in 1..cfg.n |-> [j \in 1..cfg.k |-> Val(ss, i, j, os)]])
       D == ToR(RandMat(ss + 3, cfg.n, cfg.k, -4, 4))
       L == Lift(os, Q)  LD == LiftD(os, Q, D)
   IN  /\ hist = <<>> /\ ~BadM(L) /\ ~BadM(LD)
       /\ hist' = <<[Q |-> Q, D |-> D, L |-> L, LD |-> LD]>>
       /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
(* the chain rule of the specification: for orders 1, 2, 3 compare with the  *)
(* expansion of (q + h d)^p to first order, computed by exact differences    *)
ChainRule == hist # <<>> => \A v \in 1..Len(cfg.ii) : LET p == Orders(cfg.ii)[v] IN
   p = <<2, 1>> => \A i \in 1..cfg.n, j \in 1..cfg.k :
      LET q == hist[1].Q[i][j]  d == hist[1].D[i][j]  IN
      \* ((q+d)^2 - (q-d)^2)/2 = 2 q d
      RMul(<<1, 2>>, RSub(RPow(RAdd(q, d), 2), RPow(RSub(q, d), 2))) = hist[1].LD[(v - 1) * cfg.n + i][j]
Emit == hist # <<>> => PrintT("B@" \o ToJson([orders |-> Orders(cfg.ii), inv |-> InvertibleOrders(Orders(cfg.ii)), n |-> cfg.n, s |-> cfg.s, d |-> hist[1]]))
=============================================================================
