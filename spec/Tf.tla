-------------------------------- MODULE Tf --------------------------------
(***************************************************************************)
(* State transformations (opinf.pre), as documented.  Every transformer    *)
(* that has been trained is a row-wise affine map  y_i = a_i x_i + b_i, so *)
(* its trained state is the pair of vectors (a, b).  A transformer is a    *)
(* tree: leaves are the elementary transformers, "pipe" is sequential      *)
(* composition, "multi" acts on consecutive blocks of rows.                *)
(***************************************************************************)
EXTENDS Num

Scalings == {"standard", "minmax", "minmaxsym", "maxabs", "maxabssym", "maxnorm", "maxnormsym"}

RRowMean(row) == RMean(row)
RVar(row) == LET m == RMean(row) IN
             RMean(TLCEval([j \in 1..Len(row) |-> LET d == RSub(row[j], m) IN RMul(d, d)]))
AllEntries(M) == TLCEval(Flatten(M))
ColNorm2(M, j) == RSum(TLCEval([i \in 1..Len(M) |-> RMul(M[i][j], M[i][j])]))

(* scale and shift (alpha, beta) learned from a list of entries (byrow: the *)
(* entries of one row; otherwise all entries of the matrix Y)               *)
StatOf(scl, xs, Y) ==
   LET m  == RMean(xs)
       lo == RMinOf(xs)   hi == RMaxOf(xs)
       mx(c) == RMaxOf(TLCEval([j \in 1..Len(xs) |-> RAbs(RSub(xs[j], c))]))
       nrm(c) == LET Z == TLCEval([i \in 1..Len(Y) |-> [j \in 1..Len(Y[i]) |-> RSub(Y[i][j], c)]])
                 IN RSqrt(RMaxOf(TLCEval([j \in 1..NCols(Y) |-> ColNorm2(Z, j)])))
       al == CASE scl = "standard"  -> RInv(RSqrt(RVar(xs)))
               [] scl = "minmax"    -> RInv(RSub(hi, lo))
               [] scl = "minmaxsym" -> RDiv(I(2), RSub(hi, lo))
               [] scl = "maxabs"    -> RInv(mx(R0))
               [] scl = "maxabssym" -> RInv(mx(m))
               [] scl = "maxnorm"   -> RInv(nrm(R0))
               [] scl = "maxnormsym" -> RInv(nrm(m))
       be == CASE scl = "standard"  -> RNeg(RMul(m, al))
               [] scl = "minmax"    -> RNeg(RMul(lo, al))
               [] scl = "minmaxsym" -> RSub(RNeg(RMul(lo, al)), R1)
               [] scl = "maxabs"    -> R0
               [] scl = "maxabssym" -> RNeg(RMul(m, al))
               [] scl = "maxnorm"   -> R0
               [] scl = "maxnormsym" -> RNeg(RMul(m, al))
   IN <<al, be>>

Const(n, v) == TLCEval([i \in 1..n |-> v])

(* Learned parameters of a leaf from data X.  Also the documented fitted     *)
(* attributes of the shift-scale transformer.                                *)
LearnSS(t, X) ==
   LET n == Len(X)
       mu == IF t.cen THEN TLCEval([i \in 1..n |-> RRowMean(X[i])]) ELSE Const(n, R0)
       Y  == TLCEval([i \in 1..n |-> [j \in 1..Len(X[i]) |-> RSub(X[i][j], mu[i])]])
       bad == BadV(mu) \/ BadM(Y)
       st == IF t.scl = "none" THEN Const(n, <<R1, R0>>)
             ELSE IF t.byrow THEN TLCEval([i \in 1..n |-> StatOf(t.scl, Y[i], Y)])
             ELSE LET s == StatOf(t.scl, AllEntries(Y), Y) IN Const(n, s)
       al == TLCEval([i \in 1..n |-> st[i][1]])
       be == TLCEval([i \in 1..n |-> st[i][2]])
   IN IF bad THEN [a |-> Const(n, Bad), b |-> Const(n, Bad), mean |-> mu, scale |-> mu, shift |-> mu]
      ELSE [a |-> al, b |-> TLCEval([i \in 1..n |-> RSub(be[i], RMul(al[i], mu[i]))]),
            mean |-> mu, scale |-> al, shift |-> be]

ApplyAB(ab, X) == TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |-> RAdd(RMul(ab.a[i], X[i][j]), ab.b[i])]])
InvAB(ab, Y) == TLCEval([i \in 1..Len(Y) |-> [j \in 1..Len(Y[i]) |-> RDiv(RSub(Y[i][j], ab.b[i]), ab.a[i])]])
DdtAB(ab, X) == TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |-> RMul(ab.a[i], X[i][j])]])
Compose(f, g) == \* first f, then g
   [a |-> TLCEval([i \in 1..Len(f.a) |-> RMul(g.a[i], f.a[i])]),
    b |-> TLCEval([i \in 1..Len(f.a) |-> RAdd(RMul(g.a[i], f.b[i]), g.b[i])])]
At(ab, rows) == [a |-> Rows(ab.a, rows), b |-> Rows(ab.b, rows)]

RECURSIVE Offset(_, _)
Offset(parts, v) == IF v = 1 THEN 0 ELSE Offset(parts, v - 1) + parts[v - 1].n
Block2(X, o, n) == TLCEval([i \in 1..n |-> X[o + i]])

RECURSIVE Learn(_, _)
RECURSIVE LearnPipe(_, _, _, _)
Learn(t, X) ==
   CASE t.k = "null"     -> [a |-> Const(Len(X), R1), b |-> Const(Len(X), R0)]
     [] t.k = "shift"    -> [a |-> Const(Len(X), R1), b |-> TLCEval([i \in 1..Len(X) |-> RNeg(t.par[i])])]
     [] t.k \in {"scale", "user"} -> [a |-> Const(Len(X), t.par[1]), b |-> Const(Len(X), R0)]
     [] t.k = "scalerow" -> [a |-> t.par, b |-> Const(Len(X), R0)]
     [] t.k = "ss"       -> LearnSS(t, X)
     [] t.k = "pipe"     -> LearnPipe(t.parts, 1, X, [a |-> Const(Len(X), R1), b |-> Const(Len(X), R0)])
     [] t.k = "multi"    ->
          LET sub == TLCEval([v \in 1..Len(t.parts) |-> Learn(t.parts[v], Block2(X, Offset(t.parts, v), t.parts[v].n))])
          IN [a |-> TLCEval(Flatten([v \in 1..Len(sub) |-> sub[v].a])),
              b |-> TLCEval(Flatten([v \in 1..Len(sub) |-> sub[v].b]))]
LearnPipe(parts, i, X, acc) ==
   IF i > Len(parts) THEN acc
   ELSE LET f == Learn(parts[i], X)
        IN  IF BadV(f.a) \/ BadV(f.b) THEN [a |-> Const(Len(X), Bad), b |-> Const(Len(X), Bad)]
            ELSE LET Y == ApplyAB(f, X) IN
                 IF BadM(Y) THEN [a |-> Const(Len(X), Bad), b |-> Const(Len(X), Bad)]
                 ELSE LearnPipe(parts, i + 1, Y, Compose(acc, f))

(* does the transformer need training before it can be used? *)
RECURSIVE NeedsFit(_)
NeedsFit(t) == CASE t.k \in {"null", "shift", "scalerow"} -> FALSE
                 [] t.k \in {"scale", "user"} -> TRUE
                 [] t.k = "ss" -> t.cen \/ t.scl # "none"
                 [] OTHER -> \E i \in 1..Len(t.parts) : NeedsFit(t.parts[i])
Usable(ab) == ~BadV(ab.a) /\ ~BadV(ab.b) /\ \A i \in 1..Len(ab.a) : ab.a[i][1] # 0

(* rows addressed by locs: block-wise for a multi-variable transformer *)
LocRows(t, locs) == IF t.k = "multi"
   THEN TLCEval(Flatten([v \in 1..Len(t.parts) |-> [i \in 1..Len(locs) |-> Offset(t.parts, v) + locs[i]]]))
   ELSE locs
RECURSIVE LocsAllowed(_)
LocsAllowed(t) == CASE t.k = "multi" -> \A v, w \in 1..Len(t.parts) : t.parts[v].n = t.parts[w].n
                    [] t.k = "pipe" -> \A i \in 1..Len(t.parts) : t.parts[i].k # "multi" /\ LocsAllowed(t.parts[i])
                    [] OTHER -> TRUE

(* Documented statistics of transformed training data, for the spec's own check *)
StatsHold(t, X, Y) ==           \* t a shift-scale leaf, Y its output on X
   LET grp == IF t.byrow THEN TLCEval([i \in 1..Len(Y) |-> Y[i]]) ELSE <<AllEntries(Y)>> IN
   CASE t.scl = "none" -> t.cen => \A i \in 1..Len(Y) : RMean(Y[i]) = R0
     [] t.scl = "standard" -> \A g \in 1..Len(grp) : RMean(grp[g]) = R0 /\ RVar(grp[g]) = R1
     [] t.scl = "minmax" -> \A g \in 1..Len(grp) : RMinOf(grp[g]) = R0 /\ RMaxOf(grp[g]) = R1
     [] t.scl = "minmaxsym" -> \A g \in 1..Len(grp) : RMinOf(grp[g]) = I(-1) /\ RMaxOf(grp[g]) = R1
     [] t.scl \in {"maxabs", "maxabssym"} -> \A g \in 1..Len(grp) :
            /\ RMaxOf(TLCEval([j \in 1..Len(grp[g]) |-> RAbs(grp[g][j])])) = R1
            /\ (t.scl = "maxabssym" => RMean(grp[g]) = R0)
     [] t.scl \in {"maxnorm", "maxnormsym"} ->
            /\ RMaxOf(TLCEval([j \in 1..NCols(Y) |-> ColNorm2(Y, j)])) = R1
            /\ (t.scl = "maxnormsym" => RMean(AllEntries(Y)) = R0)
=============================================================================
