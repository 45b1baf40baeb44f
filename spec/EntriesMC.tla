------------------------------ MODULE EntriesMC ------------------------------
(***************************************************************************)
(* What an operator accepts as its entries.  The operator is a machine     *)
(* whose state is its entries (none, or a matrix over the non-redundant    *)
(* products of Ops.tla; a list of such matrices for the parametric kinds), *)
(* its number of parameters and, for interpolation, its training           *)
(* parameters.  Every setting is either accepted, when what was given is   *)
(* one of the documented forms of the entries of this type, or refused and *)
(* then changes nothing.  The forms are read off the *shape* of what is    *)
(* given, so Parse below is the documentation of set_entries().            *)
(***************************************************************************)
EXTENDS Ops, Json
CONSTANTS Kinds, Ts, Seeds, MaxLen, Keep
VARIABLES cfg, st, hist
vars == <<cfg, st, hist>>

None == [set |-> FALSE]
Some(x) == [set |-> TRUE, val |-> x]

----------------------------------------------------------------------------
(* shapes *)
RECURSIVE Size(_)
Size(d) == IF d = <<>> THEN 1 ELSE Head(d) * Size(Tail(d))
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
Widths == {1, 2, 3, 4, 5, 6, 8, 9, 10, 16}
Shapes == {<<>>, <<1>>, <<2>>, <<3>>} \union {<<a, b>> : a \in 1..3, b \in Widths}
          \union {<<1, 1, 1>>, <<2, 2, 2>>, <<3, 3, 3>>, <<2, 2, 3>>, <<1, 2, 2>>, <<2, 2, 2, 2>>, <<1, 1, 1, 1>>, <<2, 2, 2, 1>>, <<2, 2, 2, 2, 2>>, <<2, 2, 2, 2, 3>>}
Values(s, d) == RandMat(s, 1, Size(d), -4, 4)[1]
LayOut(a, b, x) == TLCEval([i \in 1..a |-> [j \in 1..b |-> x[(i - 1) * b + j]]])
Single(d) == d = <<>> \/ d = <<1>>
Bad1 == <<>>                                             \* refused
(* the matrix described by values x laid out with shape d, or Bad1 *)
Parse(kind, t, d, x) ==
  LET p == Degree(t) IN
  IF kind = "poly" THEN
       IF t = "c" /\ Len(d) = 1 THEN LayOut(d[1], 1, x)
       ELSE IF Len(d) = 2 /\ (IF t = "c" THEN d[2] = 1 ELSE d[2] = OpDim(t, d[1], 0)) THEN LayOut(d[1], d[2], x) ELSE Bad1
  ELSE CASE t = "c" -> IF Len(d) <= 1 THEN LayOut(Size(d), 1, x)
                       ELSE IF Len(d) = 2 /\ (d[1] = 1 \/ d[2] = 1) THEN LayOut(Size(d), 1, x) ELSE Bad1
         [] t = "A" -> IF Single(d) THEN LayOut(1, 1, x)
                       ELSE IF Len(d) = 2 /\ d[1] = d[2] THEN LayOut(d[1], d[1], x) ELSE Bad1
         [] t \in {"H", "G", "Q"} ->
              IF Single(d) THEN LayOut(1, 1, x)
              ELSE IF Len(d) = p + 1 /\ (\A i \in 1..(p + 1) : d[i] = d[1]) THEN Compress(p, d[1], LayOut(d[1], Pow(d[1], p), x))
              ELSE IF Len(d) # 2 THEN Bad1
              ELSE IF d[2] = Pow(d[1], p) THEN Compress(p, d[1], LayOut(d[1], d[2], x))
              ELSE IF d[2] = OpDim(t, d[1], 0) THEN LayOut(d[1], d[2], x) ELSE Bad1
         [] t = "B" -> IF Len(d) <= 1 THEN LayOut(Size(d), 1, x)
                       ELSE IF Len(d) = 2 THEN LayOut(d[1], d[2], x) ELSE Bad1
         [] t = "N" -> IF Single(d) THEN LayOut(1, 1, x)
                       ELSE IF Len(d) = 2 /\ d[2] % d[1] = 0 THEN LayOut(d[1], d[2], x) ELSE Bad1

StateDim(E) == Len(E)
InputDim(t, E) == CASE t = "B" -> Len(E[1]) [] t = "N" -> Len(E[1]) \div Len(E) [] OTHER -> 0

----------------------------------------------------------------------------
(* one description of entries: [form, d]                                    *)
Forms(t, d) == {"array", "int", "fortran", "view"} \union (IF Size(d) > 1 THEN {"nan", "inf", "list"} ELSE {})
               \union (IF t \in {"A", "c"} /\ Len(d) = 2 THEN {"csr", "coo"} ELSE {})
Given(t, kind) == {[form |-> f, d |-> d] : f \in {"array", "int", "fortran", "view", "nan", "inf", "list", "csr", "coo"}, d \in Shapes}
Legal(g, t, kind) == /\ g.form \in (Forms(t, g.d) \ (IF kind = "std" THEN {} ELSE {"csr", "coo"}))
                     /\ (kind = "poly" => g.d # <<>> /\ (g.d = <<1>> => t = "c"))
GoodForm(f) == f \notin {"nan", "inf", "list"}
Hd(g, s, k) == (Hash3(s, Len(g.d) * 40 + (IF g.d = <<>> THEN 0 ELSE g.d[1] * 7 + g.d[Len(g.d)]),
                     k * 16 + (CASE g.form = "array" -> 1 [] g.form = "int" -> 2 [] g.form = "fortran" -> 3 [] g.form = "view" -> 4 [] g.form = "nan" -> 5
                                 [] g.form = "inf" -> 6 [] g.form = "list" -> 7 [] g.form = "csr" -> 8 [] OTHER -> 9)) \div 3)
(* thin out: accepted ones are rare, keep all of those with a plain form at the first step *)
Kept(g, s, k, ok) == IF ok THEN Hd(g, s, k) % Keep = 0 ELSE Hd(g, s, k) % (Keep * 8) = 0

Seed(k) == cfg.s * 17 + k * 5
Coeff(mu, j) == IF j = 1 THEN 1 ELSE IF j = 2 THEN mu[1] ELSE mu[1] * mu[1] + Len(mu)
Pars(n, p, s) == TLCEval([i \in 1..n |-> [j \in 1..p |-> 3 * i + Pick(s, i, j, 0, 1)]])

Lin(mats, w) == LET RECURSIVE f(_)
                    f(k) == IF k = 0 THEN IZero(Len(mats[1]), Len(mats[1][1])) ELSE IAdd(f(k - 1), IScale(w[k], mats[k]))
                IN f(Len(mats))

----------------------------------------------------------------------------
Fresh(kd, nt) == [E |-> None, p |-> None, pars |-> None]
Init == /\ hist = <<>>
        /\ \E kd \in Kinds, t \in Ts, s \in Seeds, nt \in 1..3 :
             /\ (kd = "poly" => t \in {"c", "A", "H", "G", "Q"})
             /\ (kd \in {"affine", "interp"} => t # "Q")
             /\ (kd # "affine" => nt = 1)
             /\ cfg = [kind |-> kd, t |-> t, s |-> s, nterms |-> nt]
        /\ st = Fresh(cfg.kind, cfg.nterms)

Probe(E, s) == LET r == StateDim(E)  m == InputDim(cfg.t, E)
                   q == RandVec(s * 3 + 1, r, -2, 2)  u == RandVec(s * 3 + 2, m, -2, 2)
               IN  [q |-> q, u |-> u, y |-> Apply([t |-> cfg.t, r |-> r, m |-> m, E |-> E], q, u)]
Obs(x) == LET has == x.E.set
              one == IF cfg.kind \in {"affine", "interp"} THEN x.E.val[1] ELSE x.E.val IN
          [set |-> has, E |-> IF has THEN x.E.val ELSE <<>>,
           r |-> IF has THEN StateDim(one) ELSE 0, m |-> IF has THEN InputDim(cfg.t, one) ELSE 0,
           p |-> IF x.p.set THEN x.p.val ELSE 0, pars |-> IF x.pars.set THEN x.pars.val ELSE <<>>,
           probe |-> IF has THEN Probe(one, cfg.s) ELSE <<>>]
Step(a, ok, new) == /\ st' = (IF ok THEN new ELSE st)
                    /\ hist' = Append(hist, a @@ [ok |-> ok, obs |-> Obs(IF ok THEN new ELSE st)])
                    /\ UNCHANGED cfg

Room == Len(hist) < MaxLen
Set == /\ Room /\ cfg.kind \in {"std", "poly"}
       /\ \E g \in Given(cfg.t, cfg.kind) :
            LET k == Len(hist) + 1
                x == Values(Seed(k), g.d)
                E == IF GoodForm(g.form) THEN Parse(cfg.kind, cfg.t, g.d, x) ELSE Bad1
                ok == E # Bad1
            IN  /\ Legal(g, cfg.t, cfg.kind) /\ Kept(g, cfg.s, k, ok)
                /\ Step([op |-> "set", form |-> g.form, d |-> g.d, x |-> x], ok, [st EXCEPT !.E = Some(E)])
Del == /\ Room /\ cfg.kind \in {"std", "poly"} /\ hist # <<>>
       /\ (Hash3(cfg.s, Len(hist), 77) % 2 = 0) = TRUE
       /\ Step([op |-> "del"], TRUE, [st EXCEPT !.E = None])

(* interpolation needs distinct training parameters *)
Distinct == cfg.kind = "interp" => st.pars.set /\ Cardinality({st.pars.val[i] : i \in 1..Len(st.pars.val)}) = Len(st.pars.val)
(* a list of n entries with shape d, the last one with shape d2 *)
SetList == /\ Room /\ cfg.kind \in {"affine", "interp"}
           /\ \E n \in 1..4, d \in Shapes, odd \in {0, 1} :
                LET k == Len(hist) + 1
                    need == IF cfg.kind = "affine" THEN cfg.nterms ELSE IF st.pars.set THEN Len(st.pars.val) ELSE 0
                    d2 == IF odd = 0 THEN d ELSE IF Len(d) = 2 THEN <<d[1], d[2] + 1>> ELSE d \o <<1>>
                    x == TLCEval([i \in 1..n |-> Values(Seed(k) + i * 101, IF i = n THEN d2 ELSE d)])
                    Es == TLCEval([i \in 1..n |-> Parse("std", cfg.t, IF i = n THEN d2 ELSE d, x[i])])
                    fits == n = need /\ (odd = 0 \/ n = 1) /\ (\A i \in 1..n : Es[i] # Bad1)
                    ok == fits /\ Distinct
                    h == Hash3(cfg.s, Size(d) * 16 + Len(d) * 4 + odd, k * 8 + n) \div 3
                IN  /\ (d = <<>> => n = 1 \/ odd = 0) /\ (odd = 1 => n > 1)
                    /\ (IF fits THEN h % Keep = 0 ELSE h % (Keep * 10) = 0) = TRUE
                    /\ Step([op |-> "list", n |-> n, d |-> d, d2 |-> d2, x |-> x], ok, [st EXCEPT !.E = Some(Es)])
(* the same entries side by side in one array of shape d *)
SetBlock == /\ Room /\ cfg.kind \in {"affine", "interp"}
            /\ \E a \in 0..3, b \in 1..12 :
                 LET k == Len(hist) + 1
                     need == IF cfg.kind = "affine" THEN cfg.nterms ELSE IF st.pars.set THEN Len(st.pars.val) ELSE 0
                     d == IF a = 0 THEN <<b>> ELSE <<a, b>>
                     x == Values(Seed(k), d)
                     div == need > 0 /\ b % Max2(need, 1) = 0
                     w == IF div THEN b \div need ELSE 1
                     piece(i) == IF a = 0 THEN TLCEval([j \in 1..w |-> x[(i - 1) * w + j]])
                                 ELSE Flatten([r \in 1..a |-> [j \in 1..w |-> x[(r - 1) * b + (i - 1) * w + j]]])
                     Es == IF div THEN TLCEval([i \in 1..need |-> Parse("std", cfg.t, IF a = 0 THEN <<w>> ELSE <<a, w>>, piece(i))]) ELSE <<>>
                     fits == div /\ (\A i \in 1..need : Es[i] # Bad1)
                     ok == fits /\ Distinct
                     h == Hash3(cfg.s, a * 16 + b, k) \div 3
                 IN  /\ (IF fits THEN h % Keep = 0 ELSE h % (Keep * 6) = 0) = TRUE
                     /\ Step([op |-> "block", d |-> d, x |-> x], ok, [st EXCEPT !.E = Some(Es)])
SetP == /\ Room /\ cfg.kind = "affine"
        /\ \E p \in {0, 1, 2} : /\ (Hash3(cfg.s, p, Len(hist)) % 2 = 0) = TRUE
                                 /\ Step([op |-> "p", p |-> p], ~st.p.set /\ p > 0, [st EXCEPT !.p = Some(p)])
SetPars == /\ Room /\ cfg.kind = "interp"
           /\ \E n \in 2..4, p \in 1..2, how \in {"good", "ragged", "dup", "cube"} :
                LET P == Pars(n, p, cfg.s + Len(hist))
                    Q == IF how = "dup" THEN [P EXCEPT ![n] = P[1]] ELSE P
                    h == Hash3(cfg.s, n * 4 + p, Len(hist) * 8 + Len(how)) \div 3 IN
                /\ (IF how = "good" THEN h % 2 = 0 ELSE h % 5 = 0) = TRUE
                /\ (how = "dup" => p = 1) /\ (how = "ragged" => p = 2)
                /\ Step([op |-> "pars", how |-> how, pars |-> Q, n |-> n, p |-> p], ~st.E.set /\ how \notin {"ragged", "cube"},
                        [st EXCEPT !.pars = Some(Q), !.p = Some(p)])
(* evaluation: an affine operator learns its number of parameters from the first value it is given *)
Eval == /\ Room /\ cfg.kind \in {"affine", "interp"} /\ hist # <<>>
        /\ \E p \in 1..2 :
             LET mu == IF cfg.kind = "interp" /\ st.pars.set /\ p = st.p.val THEN st.pars.val[1 + (cfg.s % Len(st.pars.val))]
                       ELSE TLCEval([j \in 1..p |-> Pick(cfg.s, p, j + Len(hist), -3, 3)])
                 ok == st.E.set /\ (st.p.set => st.p.val = p)
                 w == IF cfg.kind = "affine" THEN TLCEval([j \in 1..cfg.nterms |-> Coeff(mu, j)])
                      ELSE TLCEval([j \in 1..Len(st.pars.val) |-> IF st.pars.val[j] = mu THEN 1 ELSE 0])
             IN  Step([op |-> "eval", mu |-> mu, p |-> p, value |-> IF ok THEN Lin(st.E.val, w) ELSE <<>>], ok, [st EXCEPT !.p = Some(p)])
Next == Set \/ Del \/ SetList \/ SetBlock \/ SetP \/ SetPars \/ Eval
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Finished == Len(hist) = MaxLen
(* accepted entries have the number of columns of the data block *)
WellFormed == (st.E.set /\ cfg.kind \in {"std", "poly"}) =>
                 \A i \in 1..Len(st.E.val) : Len(st.E.val[i]) = OpDim(cfg.t, StateDim(st.E.val), InputDim(cfg.t, st.E.val))
SameShape == (st.E.set /\ cfg.kind \in {"affine", "interp"}) =>
                 /\ \A i \in 1..Len(st.E.val) : Len(st.E.val[i]) = Len(st.E.val[1]) /\ Len(st.E.val[i][1]) = Len(st.E.val[1][1])
                 /\ (cfg.kind = "interp" => Len(st.E.val) = Len(st.pars.val))
Emit == Finished => PrintT("B@" \o ToJson([cfg |-> cfg, h |-> hist]))
=============================================================================
