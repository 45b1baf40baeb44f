------------------------------ MODULE GridMC ------------------------------
(***************************************************************************)
(* Grid search and refinement over one error function.  Candidates are      *)
(* powers of ten, exponents counted in quarters.  The error function is     *)
(* either a table (values, or "inf"/"nan" where it fails) or a parabola in  *)
(* the exponent, failing outside lo..hi.                                    *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Dims, Ns, Seeds
VARIABLES cfg, i, best, b
vars == <<cfg, i, best, b>>
Init == \E dim \in Dims : \E n \in Ns : \E s \in Seeds : \E shape \in {"table", "quad"} : \E refine \in BOOLEAN :
   cfg = [dim |-> dim, n |-> n, s |-> s, shape |-> shape, refine |-> refine] /\ i = 0 /\ best = "none" /\ b = <<>>
S0 == Hash2(cfg.s, cfg.n * 8 + cfg.dim * 2 + (IF cfg.shape = "quad" THEN 1 ELSE 0))
P == Perm(S0, 11)
Exps == IF cfg.shape = "table" THEN [j \in 1..cfg.n |-> 4 * (P[j] - 6)] ELSE [j \in 1..cfg.n |-> 3 * (P[j] - 6) + (Hash2(S0, 40 + j) % 3)]
Mid == (Hash2(S0, 1) % 41) - 20
Lo == Mid - 2 - (Hash2(S0, 2) % 30)
Hi == Mid + (Hash2(S0, 3) % 30)
Floor == Hash2(S0, 4) % 3
Val(j, e) == IF cfg.shape = "table" THEN (LET x == (Hash2(S0, 60 + j) \div 5) % 14 IN IF x >= 12 THEN "nan" ELSE IF x >= 8 THEN "inf" ELSE x)
             ELSE IF e < Lo \/ e > Hi THEN "inf" ELSE (e - Mid) * (e - Mid) + Floor
Fine(x) == x # "inf" /\ x # "nan"
Start == /\ b = <<>>
         /\ b' = TLCEval([cfg |-> cfg, exps |-> Exps, vals |-> [j \in 1..cfg.n |-> Val(j, Exps[j])], mid |-> Mid, lo |-> Lo, hi |-> Hi, floor |-> Floor])
         /\ UNCHANGED <<cfg, i, best>>
Try == /\ b # <<>> /\ i < cfg.n /\ i' = i + 1
       /\ LET x == b.vals[i + 1] IN best' = (IF ToString(x) \in {"\"inf\"", "\"nan\""} THEN best ELSE IF ToString(best) = "\"none\"" THEN x ELSE Min2(x, best))
       /\ UNCHANGED <<cfg, b>>
Spec == Init /\ [][Start \/ Try]_vars
Text(x) == ToString(x)
Ok(x) == Text(x) \notin {"\"inf\"", "\"nan\""}
Found == Text(best) # "\"none\""
Sound == b # <<>> => /\ Found <=> \E j \in 1..i : Ok(b.vals[j])
                     /\ Found => \A j \in 1..i : Ok(b.vals[j]) => best <= b.vals[j]
(* the optimum of the parabola lies between the neighbours of the winner,    *)
(* where nothing fails                                                       *)
Inside == cfg.shape = "quad" /\ cfg.dim = 1 /\ Found
   /\ LET w == CHOOSE j \in 1..cfg.n : Ok(b.vals[j]) /\ b.vals[j] = best
          e == b.exps[w]
          below == {b.exps[j] : j \in {k \in 1..cfg.n : b.exps[k] < e}}
          above == {b.exps[j] : j \in {k \in 1..cfg.n : b.exps[k] > e}}
          lo == IF below = {} THEN e - 8 ELSE CHOOSE x \in below : \A y \in below : y <= x
          hi == IF above = {} THEN e + 8 ELSE CHOOSE x \in above : \A y \in above : y >= x
      IN lo >= b.lo /\ hi <= b.hi /\ lo < b.mid /\ b.mid < hi
Emit == (b # <<>> /\ i = cfg.n) => PrintT("B@" \o ToJson([cfg |-> cfg, exps |-> b.exps, vals |-> b.vals, mid |-> b.mid, lo |-> b.lo, hi |-> b.hi,
                                     floor |-> b.floor, best |-> best, inside |-> Inside]))
=============================================================================
