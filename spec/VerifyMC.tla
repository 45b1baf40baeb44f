------------------------------ MODULE VerifyMC ------------------------------
(***************************************************************************)
(* verify() of the templates that users derive their own components from.  *)
(* An implementation is a record of design choices, one per method or       *)
(* attribute of the template: the first choice of each field is the correct *)
(* one.  What an implementation computes is given by small exact matrices,  *)
(* so that whether it fulfils the contract of its template is *decided by   *)
(* the definition* (Consistent), not by the list of its faults: a "wrong"   *)
(* choice may well be consistent (a zero Jacobian of a constant operator,   *)
(* coefficients taken in the reverse order when they are all equal, ...).   *)
(* Required: verify() accepts iff the implementation is consistent, raises  *)
(* the documented error otherwise, and changes nothing, so that it can be   *)
(* called again after the implementation was repaired.                      *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Kinds, Ns, Seeds, MaxDev, Keep
VARIABLES cfg, impl, hist
vars == <<cfg, impl, hist>>

F(name, choices) == [name |-> name, of |-> choices]
Fields(k) ==
  CASE k = "tf" -> <<
         F("trained", <<"yes", "no">>),
         F("tshape", <<"right", "cols", "rows">>), F("tcopy", <<"yes", "no">>), F("tin", <<"yes", "no">>),
         F("inv", <<"right", "scale", "shift", "rows", "lastcol">>), F("ishape", <<"right", "cols">>), F("icopy", <<"yes", "no">>), F("iin", <<"yes", "no">>),
         F("locs", <<"right", "shift", "shape", "lastcol">>),
         F("ddts", <<"right", "none", "small", "large", "lastcol", "lastrow">>), F("dcopy", <<"yes", "no">>), F("din", <<"yes", "no">>),
         F("tol", <<"default", "loose", "wide", "tight">>) >>
    [] k = "basis" -> <<
         F("trained", <<"yes", "no">>),
         F("mat", <<"orth", "oblique", "scaled", "general", "zero">>),
         F("ccols", <<"right", "more">>), F("cvec", <<"right", "matrix">>), F("dshape", <<"right", "rows">>), F("dvec", <<"right", "matrix">>),
         F("locs", <<"right", "shift", "shape", "lastcol">>), F("proj", <<"right", "double", "lastcol">>) >>
    [] k = "lift" -> <<
         F("cols", <<"right", "wrong">>), F("unlift", <<"right", "scale", "rows", "lastcol", "lastrow">>),
         F("ddts", <<"right", "none", "small", "large", "shape", "lastcol", "lastrow">>), F("tol", <<"default", "loose", "wide">>), F("t", <<"given", "missing">>),
         F("grid", <<"uniform", "nonuniform">>) >>
    [] k = "op" -> <<
         F("rdim", <<"right", "float", "zero">>), F("mdim", <<"right", "float", "zero">>),
         F("vec", <<"right", "column", "list">>), F("mat", <<"right", "transposed", "vector">>),
         F("what", <<"linear", "constant", "quadratic">>),
         F("jac", <<"right", "none", "small", "large", "shape", "zero", "entry">>), F("tol", <<"default", "loose", "wide">>),
         F("gal", <<"right", "none", "scaled", "onlyV", "onlyW", "state", "class", "input">>),
         F("copy", <<"right", "self", "class", "entries", "one", "state", "input">>),
         F("file", <<"right", "none", "class", "entries", "one", "state", "input">>) >>
    [] k = "opinf" -> <<
         F("dstatic", <<"yes", "no">>), F("dim", <<"right", "float", "zero", "more">>), F("bstatic", <<"yes", "no">>),
         F("block", <<"right", "vector", "rows", "cols">>), F("entries", <<"given", "none">>) >>
    [] k = "param" -> <<
         F("opclass", <<"right", "plain">>), F("rdim", <<"right", "float", "zero">>), F("mdim", <<"right", "float", "zero">>),
         F("testparam", <<"none", "right", "short">>),
         F("eval", <<"right", "class", "state", "inputs", "noinputs", "input">>) >>
    [] k = "ddt" -> <<
         F("two", <<"right", "list", "three", "states">>), F("q", <<"right", "rows">>), F("d", <<"right", "rows", "cols">>),
         F("three", <<"right", "two", "none">>), F("u", <<"right", "rows", "cols">>),
         F("window", <<"all", "first", "last", "middle">>), F("error", <<"none", "small", "large">>), F("boom", <<"no", "yes">>),
         F("call", <<"verify", "shapes">>) >>
    [] k = "solver" -> <<
         F("trained", <<"yes", "no">>), F("solve", <<"right", "transposed", "flat">>),
         F("copy", <<"right", "class", "data", "one", "dims">>), F("file", <<"right", "none", "noload", "data", "one", "dims">>) >>

    [] k = "built" -> <<
         F("class", <<"Null", "Shift", "Scale", "Scale.rows", "ShiftScale.standard", "ShiftScale.minmax", "ShiftScale.minmaxsym", "ShiftScale.maxabs",
                      "ShiftScale.maxabssym", "ShiftScale.maxnorm", "ShiftScale.maxnormsym", "Pipeline", "Multi", "Linear", "Linear.weights",
                      "POD", "POD.weights", "BasisMulti", "Quadratic", "Polynomial", "op.Constant", "op.Linear", "op.Quadratic", "op.Cubic", "op.Quartic",
                      "op.Input", "op.StateInput", "op.zero", "op.AffineLinear", "op.InterpLinear", "op.AffineInput", "op.InterpStateInput",
                      "Plain", "L2", "L2Decoupled", "Tikhonov", "TikhonovDecoupled", "TruncatedSVD", "Total">>),
         F("again", <<"no", "yes">>), F("centering", <<"yes", "no">>), F("byrow", <<"no", "yes">>), F("saved", <<"no", "yes">>) >>
    [] k = "fd" -> <<
         F("scheme", <<"ord4", "ord2", "ord6", "fwd1", "fwd2", "fwd3", "fwd4", "fwd5", "fwd6", "bwd1", "bwd2", "bwd3", "bwd4", "bwd5", "bwd6",
                       "ctr2", "ctr4", "ctr6", "nonuniform", "cubic", "akima", "cubic.new">>) >>

NF(k) == Len(Fields(k))
Ndev(im) == Cardinality({x \in DOMAIN im : im[x] # 1})

(* choice of a field by name *)
At(k, im, name) == LET j == CHOOSE j \in 1..NF(k) : Fields(k)[j].name = name IN Fields(k)[j].of[im[j]]

----------------------------------------------------------------------------
(* data *)
Sc(s, n) == TLCEval([i \in 1..n |-> LET x == Pick(s, i, 3, 1, 6) IN I(IF x <= 3 THEN x ELSE 3 - x)])       \* nonzero
Sh(s, n) == TLCEval([i \in 1..n |-> I(Pick(s, i, 4, -3, 3))])
Dim2(c) == Min2(c.n, 1 + (c.s % 2))                        \* reduced dimension, number of inputs, ...
Pairs(c, name) ==                                          \* decompression and compression matrices of the basis
  LET r == Dim2(c)
      X == RandMat(c.s * 5 + 1, c.n, r, -2, 2)  Y == RandMat(c.s * 5 + 2, r, c.n, -2, 2)
      D == TLCEval([i \in 1..c.n |-> [j \in 1..r |-> IF i <= r THEN I(IF i = j THEN 1 ELSE 0)
                                                     ELSE IF name \in {"oblique", "general"} THEN I(X[i][j]) ELSE R0]])
      C == TLCEval([i \in 1..r |-> [j \in 1..c.n |-> IF name = "zero" THEN R0
                                                     ELSE IF j <= r THEN I(IF i = j THEN (IF name = "scaled" THEN 2 ELSE 1) ELSE 0)
                                                     ELSE IF name = "general" THEN I(Y[i][j]) ELSE R0]])
  IN  <<D, C>>

Tol(name, default) == CASE name = "default" -> default [] name = "loose" -> <<1, 100>> [] name = "wide" -> <<1, 1>> [] name = "tight" -> <<1, 10000000>>
Eps(name) == CASE name = "small" -> <<1, 1000>> [] name = "large" -> <<1, 10>> [] OTHER -> R0
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]

----------------------------------------------------------------------------
(* the contract of each template; the answer is "ok" or the name of the error *)
VE == "VerificationError"
Verdict(c, im) ==
  LET f(name) == At(c.kind, im, name)  n == c.n  r == Dim2(c) IN
  CASE c.kind = "tf" ->
         LET a == Sc(c.s, n)  b == Sh(c.s, n)
             inv == f("inv")
             ia == TLCEval([i \in 1..n |-> IF inv = "rows" THEN RInv(a[n + 1 - i])
                                           ELSE IF inv = "scale" /\ i = n THEN RMul(I(2), RInv(a[i])) ELSE RInv(a[i])])
             ib == TLCEval([i \in 1..n |-> LET j == IF inv = "rows" THEN n + 1 - i ELSE i
                                               z == RNeg(RMul(b[j], RInv(a[j])))
                                           IN  IF inv = "shift" /\ i = 1 THEN RAdd(z, R1) ELSE z])
             inverse == inv # "lastcol" /\ \A i \in 1..n : RMul(ia[i], a[i]) = R1 /\ RAdd(RMul(ia[i], b[i]), ib[i]) = R0
             atlocs == f("locs") = "right" \/ (f("locs") \in {"shift", "lastcol"} /\ n \div 3 = 0)
             calls == \A x \in {"tcopy", "tin", "icopy", "iin"} : f(x) = "yes"
             deriv == f("ddts") = "none" \/ (f("dcopy") = "yes" /\ f("din") = "yes" /\ f("ddts") \notin {"lastcol", "lastrow"} /\ Leq(Eps(f("ddts")), Tol(f("tol"), <<1, 10000>>)))
         IN  IF f("trained") = "no" THEN "AttributeError"
             ELSE IF f("tshape") = "right" /\ f("ishape") = "right" /\ calls /\ inverse /\ atlocs /\ deriv THEN "ok" ELSE VE
    [] c.kind = "basis" ->
         LET DC == Pairs(c, f("mat"))
             P == RMatMul(DC[1], DC[2])
             P2 == RMatMul(P, P)
             Q2 == IF f("proj") = "double" THEN RMatScale(I(2), P2) ELSE P2
             atlocs == f("locs") = "right" \/ (f("locs") \in {"shift", "lastcol"} /\ n \div 3 = 0)
         IN  IF f("trained") = "no" THEN "AttributeError"
             ELSE IF f("ccols") = "right" /\ f("cvec") = "right" /\ f("dshape") = "right" /\ f("dvec") = "right" /\ atlocs /\ Q2 = P /\ f("proj") # "lastcol" THEN "ok" ELSE VE
    [] c.kind = "lift" ->
         IF f("cols") # "right" \/ f("unlift") # "right" THEN VE
         ELSE IF f("ddts") = "none" THEN "ok"
         ELSE IF f("t") = "missing" THEN "ValueError"
         ELSE IF f("ddts") \notin {"shape", "lastcol", "lastrow"} /\ Leq(Eps(f("ddts")), Tol(f("tol"), <<1, 10000>>)) THEN "ok" ELSE VE
    [] c.kind = "op" ->
         LET m == c.s % 3
             e == Eps(f("jac"))
             constant == f("what") = "constant"
             jac == CASE f("jac") \in {"right", "none"} -> TRUE
                      [] f("jac") = "shape" -> FALSE
                      [] f("jac") = "entry" -> f("tol") = "wide"
                      [] f("jac") = "zero" -> constant
                      [] OTHER -> constant \/ Leq(RDiv(e, RAdd(R1, e)), Tol(f("tol"), <<1, 100000>>))
             gal == n = 1 \/ f("gal") \in {"right", "none"} \/ (f("gal") = "input" /\ m = 0)
             cpy == f("copy") = "right" \/ (f("copy") = "input" /\ m = 0)
             fil == f("file") \in {"right", "none"} \/ (f("file") = "input" /\ m = 0)
         IN  IF f("rdim") = "right" /\ (m = 0 \/ f("mdim") = "right") /\ f("vec") = "right" /\ f("mat") = "right" /\ jac /\ gal /\ cpy /\ fil
             THEN "ok" ELSE VE
    [] c.kind = "opinf" ->
         IF f("dstatic") = "yes" /\ f("dim") = "right" /\ f("bstatic") = "yes" /\ f("block") = "right" THEN "ok" ELSE VE
    [] c.kind = "param" ->
         LET m == c.s % 3
             ev == f("eval") = "right" \/ (f("eval") = "inputs" /\ m > 0) \/ (f("eval") \in {"noinputs", "input"} /\ m = 0)
         IN  IF f("opclass") # "right" \/ f("rdim") # "right" \/ (m > 0 /\ f("mdim") # "right") THEN VE
             ELSE IF f("testparam") = "short" THEN "ValueError"
             ELSE IF ev THEN "ok" ELSE VE
    [] c.kind = "ddt" ->
         IF ~(f("two") = "right" /\ f("q") = "right" /\ f("d") = "right" /\ f("three") = "right" /\ f("u") = "right") THEN VE
         ELSE IF f("boom") = "yes" /\ f("call") = "verify" THEN "RuntimeError" ELSE "ok"
    [] c.kind \in {"built", "fd"} -> "ok"
    [] c.kind = "solver" ->
         LET d == 1 + ((c.s \div 2) % 3)
             shp == f("solve") = "right" \/ (f("solve") = "transposed" /\ n = d)
         IN  IF f("trained") = "no" THEN "ok"
             ELSE IF shp /\ f("copy") = "right" /\ f("file") \in {"right", "none", "noload"} THEN "ok" ELSE VE

Order(sch) == CASE sch \in {"ord4", "ctr4", "fwd4", "bwd4"} -> 4 [] sch \in {"ord6", "ctr6", "fwd6", "bwd6"} -> 6
                [] sch \in {"fwd5", "bwd5"} -> 5 [] sch \in {"fwd3", "bwd3"} -> 3 [] sch \in {"fwd1", "bwd1", "akima"} -> 1
                [] sch \in {"cubic", "cubic.new"} -> 3 [] OTHER -> 2
(* the relative error that an estimator's verify() must report in every test *)
(* and the degree of the polynomials whose derivative the estimator gives exactly *)
Degree(c, im) == IF c.kind = "fd" THEN Order(At("fd", im, "scheme")) ELSE 0
Reported(c, im) == IF c.kind = "ddt" THEN Eps(At("ddt", im, "error")) ELSE R0

----------------------------------------------------------------------------
Right(k) == [j \in 1..NF(k) |-> 1]
(* implementations with at most MaxDev choices other than the first; of those with MaxDev of them, one in Keep is kept *)
RECURSIVE Vary(_, _, _)
Vary(k, S, d) == IF d = 0 THEN S
                 ELSE LET P == Vary(k, S, d - 1) IN
                      P \union UNION {{[im EXCEPT ![j] = x] : x \in 1..Len(Fields(k)[j].of)} : im \in P, j \in 1..NF(k)}
Impls(k) == TLCEval(Vary(k, {Right(k)}, MaxDev))
HashImpl(im, s) == LET RECURSIVE h(_)
                       h(j) == IF j = 0 THEN s ELSE Hash3(h(j - 1), im[j], j)
                   IN  h(Len(im))

Init == /\ hist = <<>>
        /\ \E k \in Kinds : \E im \in Impls(k), n \in Ns, s \in Seeds :
             /\ (Ndev(im) >= MaxDev => HashImpl(im, s * 31 + n) % Keep = 0)
             /\ impl = im
             /\ cfg = [kind |-> k, n |-> n, s |-> s, im |-> im]

Step(a) == hist' = Append(hist, a)
Verify == /\ (hist = <<>> \/ (hist # <<>> /\ hist[Len(hist)].op = "repair"))
          /\ Step([op |-> "verify", want |-> Verdict(cfg, impl), reported |-> Reported(cfg, impl), degree |-> Degree(cfg, impl)])
          /\ UNCHANGED <<cfg, impl>>
Repair == /\ hist # <<>> /\ hist[Len(hist)].op = "verify" /\ Ndev(impl) > 0
          /\ LET j == CHOOSE j \in 1..Len(impl) : impl[j] # 1 /\ (\A l \in 1..(j - 1) : impl[l] = 1) IN
             /\ impl' = [impl EXCEPT ![j] = 1]
             /\ Step([op |-> "repair", field |-> Fields(cfg.kind)[j].name, to |-> Fields(cfg.kind)[j].of[1]])
          /\ UNCHANGED cfg
Next == Verify \/ Repair
Spec == Init /\ [][Next]_vars

Done == hist # <<>> /\ hist[Len(hist)].op = "verify" /\ Ndev(impl) = 0
(* the correct implementation is accepted; every fault of the lists is a fault for some configuration *)
RightAccepted == Done => hist[Len(hist)].want = "ok"
Conf(im, k) == [x \in {Fields(k)[j].name : j \in 1..NF(k)} |-> At(k, im, x)]
Data(c, im) == CASE c.kind = "tf" -> [a |-> Sc(c.s, c.n), b |-> Sh(c.s, c.n), D |-> <<>>, C |-> <<>>]
                 [] c.kind = "basis" -> [a |-> <<>>, b |-> <<>>, D |-> Pairs(c, At("basis", im, "mat"))[1], C |-> Pairs(c, At("basis", im, "mat"))[2]]
                 [] OTHER -> [a |-> <<>>, b |-> <<>>, D |-> <<>>, C |-> <<>>]
Emit == Done => PrintT("B@" \o ToJson([kind |-> cfg.kind, n |-> cfg.n, s |-> cfg.s, impl |-> Conf(cfg.im, cfg.kind), data |-> Data(cfg, cfg.im),
                                      orth |-> Data(cfg, Right(cfg.kind)), d2 |-> Dim2(cfg), h |-> hist]))
=============================================================================
