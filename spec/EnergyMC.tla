------------------------------ MODULE EnergyMC ------------------------------
(***************************************************************************)
(* Dimension selection on spectra whose energies are exactly representable *)
(* in binary, at thresholds that hit the boundaries exactly: comparisons   *)
(* with and without equality are told apart.                               *)
(***************************************************************************)
EXTENDS Basis, Json
CONSTANTS Denoms, MaxLen
VARIABLES cfg, hist
vars == <<cfg, hist>>
Spectra == << <<1>>, <<1, 1>>, <<1, 1, 1, 1>>, <<2, 1, 1, 1, 1>>, <<4, 3, 2, 1, 1, 1>>,
              <<4, 2, 2, 2, 1, 1, 1, 1>>, <<2, 2, 2, 2>>, <<8, 4, 4, 4, 4>>, <<4, 4, 4, 4, 4, 4, 4, 4>> >>
Init == \E i \in 1..Len(Spectra) : \E d \in Denoms : \E n \in 1..d : cfg = [i |-> i, v |-> Rat(n, d)] /\ hist = <<>>
Sv == ToRV(Spectra[cfg.i])
Names == {"svdval_threshold", "cumulative_energy", "residual_energy", "projection_error"}
Step == Len(hist) < MaxLen /\ \E n \in Names :
    hist' = Append(hist, [n |-> n, r |-> Dim([n |-> n, v |-> cfg.v], Sv)]) /\ UNCHANGED cfg
Spec == Init /\ [][Step]_vars
(* the smallest dimension: it meets the criterion and one less does not      *)
Smallest == \A k \in 1..Len(hist) : LET r == hist[k].r  en == Energy(Sv)  K == Len(Sv)
      Meets(x) == CASE hist[k].n = "cumulative_energy" -> RLe(cfg.v, en[x])
                    [] hist[k].n = "residual_energy" -> RLe(RSub(R1, en[x]), cfg.v)
                    [] hist[k].n = "projection_error" -> RLe(RSub(R1, en[x]), RMul(cfg.v, cfg.v))
                    [] OTHER -> TRUE
   IN hist[k].n = "svdval_threshold" \/ (Meets(r) /\ (r > 1 => ~Meets(r - 1)))
Emit == Len(hist) = MaxLen => PrintT("B@" \o ToJson([sv |-> Spectra[cfg.i], v |-> cfg.v, cum |-> Energy(Sv), ranks |-> Ranks(Sv, cfg.v), hist |-> hist]))
=============================================================================
