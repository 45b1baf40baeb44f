------------------------------ MODULE AlignMC ------------------------------
(***************************************************************************)
(* Which training calls are refused?  A call is described only by the      *)
(* shapes of what it is given: parameters, states, left-hand sides, inputs  *)
(* and times, one per trajectory.  A well-formed call is edited in one or   *)
(* two places (a row or column more or less somewhere, one trajectory more  *)
(* or less in one of the lists, something left out, something that is not   *)
(* needed); Verdict decides from the documented shapes alone whether the    *)
(* edited call is still well formed.  Two edits may cancel in every total   *)
(* without the trajectories being aligned.  A refused call changes nothing. *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Levels, Pars, Seeds, MaxLen, Keep, Thin
VARIABLES cfg, st, hist
vars == <<cfg, st, hist>>

Legal(c) ==
  /\ c.level = "model" => c.r \in {1, 2} /\ c.est = "none"
  /\ c.level # "model" => c.r \in {3, 4}
  /\ (c.bas => c.level # "model")
  /\ (c.keepb => c.bas)
  /\ c.level = "model" /\ c.par = "no" => c.n = 1 /\ c.single
  /\ c.par # "no" => c.n = 3 /\ ~c.single
  /\ c.level # "model" /\ c.par = "no" => c.n \in {1, 2, 3} /\ (c.single => c.n = 1)
  /\ (c.known = "input" => c.m > 0)
  /\ (c.level = "sel" /\ c.disc => ~c.lhs)
  /\ (c.disc => c.est = "none")
  /\ (c.lhs => c.est = "none")
  /\ (~c.disc /\ ~c.lhs => c.est # "none")
Configs == {c \in [level : Levels, par : Pars, disc : BOOLEAN, r : {1, 2, 3, 4}, m : {0, 1, 2}, n : {1, 2, 3}, single : BOOLEAN, lhs : BOOLEAN, bas : BOOLEAN, keepb : BOOLEAN,
                   known : {"none", "state", "input"}, est : {"none", "unif", "interp"}, s : Seeds] : Legal(c)}
Hcfg(c) == Hash3(c.r * 16 + c.m * 4 + c.n, (IF c.disc THEN 1 ELSE 0) + (IF c.lhs THEN 2 ELSE 0) + (IF c.single THEN 4 ELSE 0) + (IF c.bas THEN 512 ELSE 0) + (IF c.keepb THEN 1024 ELSE 0) + 8 * Len(c.known) + 64 * Len(c.est), c.s)

(* number of snapshots of trajectory i: all different, except where one time domain serves them all *)
Snaps(c, i) == IF c.est = "interp" THEN 7 ELSE 6 + ((i + c.s) % 3)
Base(c) == LET sh(rows) == TLCEval([i \in 1..c.n |-> <<rows, Snaps(c, i)>>]) IN
           [P |-> IF c.par = "no" THEN 0 ELSE c.n, W |-> 1, Q |-> sh(c.r), hZ |-> c.lhs, Z |-> IF c.lhs THEN sh(c.r) ELSE <<>>,
            hU |-> c.m > 0, U |-> IF c.m > 0 THEN sh(c.m) ELSE <<>>,
            T |-> IF c.level = "sel" /\ ~c.disc THEN TLCEval([i \in 1..c.n |-> Snaps(c, i)]) ELSE <<>>]

Funs(c) == c.level = "sel" /\ ~c.disc         \* inputs are functions of time: no columns of their own
DimEdits(c) == {[f |-> f, i |-> i, d |-> d, by |-> by] : f \in {"Q", "Z", "U"}, i \in 1..c.n, d \in 1..2, by \in {-1, 1}}
TimeEdits(c) == IF Funs(c) THEN {[f |-> "T", i |-> i, d |-> 2, by |-> by] : i \in 1..c.n, by \in {-1, 1}} ELSE {}
CountEdits(c) == {[f |-> f, i |-> 0, d |-> 0, by |-> by] : f \in {"P", "Q", "Z", "U", "T"}, by \in {-1, 1}}
(* vectors of two parameters although a given operator interpolates between scalars *)
WidthEdits(c) == IF c.par = "interp" /\ c.known # "none" THEN {[f |-> "P", i |-> 0, d |-> 1, by |-> 1]} ELSE {}
DropEdits == {[f |-> f, i |-> 0, d |-> 0, by |-> 0] : f \in {"Z", "U"}}
Extra == {[f |-> "U", i |-> 0, d |-> 0, by |-> 2]}
Edits(c) == {e \in DimEdits(c) \cup TimeEdits(c) \cup CountEdits(c) \cup WidthEdits(c) \cup DropEdits \cup Extra :
               /\ (e.f = "Z" => c.lhs)
               /\ (e.f = "U" => IF e.by = 2 THEN c.m = 0 ELSE c.m > 0)
               /\ (e.f = "U" /\ e.d = 2 => ~Funs(c))
               /\ (e.f = "P" => c.par # "no")
               /\ (e.f = "T" => Funs(c))
               /\ (e.d = 0 /\ e.by \in {-1, 1} => c.n > 1)}

Bump(seq, i, d, by) == [seq EXCEPT ![i] = IF d = 1 THEN <<@[1] + by, @[2]>> ELSE <<@[1], @[2] + by>>]
Longer(seq, by) == IF by > 0 THEN Append(seq, seq[Len(seq)]) ELSE SubSeq(seq, 1, Len(seq) - 1)
Edit(x, e) ==
  CASE e.f = "P" -> IF e.d = 1 THEN [x EXCEPT !.W = @ + e.by] ELSE [x EXCEPT !.P = @ + e.by]
    [] e.f = "T" -> [x EXCEPT !.T = IF e.d = 0 THEN Longer(@, e.by) ELSE [@ EXCEPT ![e.i] = @ + e.by]]
    [] e.f = "Q" -> [x EXCEPT !.Q = IF e.d = 0 THEN Longer(@, e.by) ELSE Bump(@, e.i, e.d, e.by)]
    [] e.f = "Z" -> IF e.by = 0 THEN [x EXCEPT !.hZ = FALSE, !.Z = <<>>]
                    ELSE [x EXCEPT !.Z = IF e.d = 0 THEN Longer(@, e.by) ELSE Bump(@, e.i, e.d, e.by)]
    [] OTHER -> CASE e.by = 0 -> [x EXCEPT !.hU = FALSE, !.U = <<>>]
                  [] e.by = 2 -> [x EXCEPT !.hU = TRUE, !.U = [i \in 1..Len(x.Q) |-> <<1, x.Q[i][2]>>]]
                  [] OTHER -> [x EXCEPT !.U = IF e.d = 0 THEN Longer(@, e.by) ELSE Bump(@, e.i, e.d, e.by)]
(* the second of two edits must still make sense after the first *)
Applies(x, e) == CASE e.f = "Z" -> x.hZ /\ (e.i > 0 => e.i <= Len(x.Z))
                   [] e.f = "U" -> (IF e.by = 2 THEN ~x.hU ELSE x.hU) /\ (e.i > 0 /\ e.by # 2 => e.i <= Len(x.U))
                   [] e.f = "Q" -> e.i <= Len(x.Q)
                   [] e.f = "T" -> e.i <= Len(x.T)
                   [] OTHER -> TRUE
Positive(x) == \A f \in {x.Q, x.Z, x.U} : \A i \in 1..Len(f) : f[i][1] > 0 /\ f[i][2] > 0

(* --------------------------- what is well formed ----------------------- *)
Verdict(c, x, n0) ==
  LET n == Len(x.Q)
      r0 == IF c.known # "none" /\ ~c.bas THEN c.r ELSE x.Q[1][1]
      m0 == IF c.known = "input" THEN c.m ELSE x.U[1][1]
      rom == c.level # "model"
      counts == /\ x.W = 1
                /\ (c.par # "no" => x.P = n)
                /\ (x.hZ => Len(x.Z) = n)
                /\ (c.m > 0 /\ x.hU => Len(x.U) = n)
                /\ (Funs(c) => Len(x.T) = n)
      states == \A i \in 1..n : x.Q[i][1] = r0 /\ (n0 > 0 => x.Q[i][1] = n0)
      lhs == IF x.hZ THEN \A i \in 1..n : x.Z[i] = x.Q[i]
             ELSE IF c.disc THEN TRUE ELSE IF c.est = "interp" THEN \A i \in 1..n : x.Q[i][2] = 7 ELSE c.est # "none"
      times == Funs(c) => \A i \in 1..n : x.T[i] = x.Q[i][2]
      rows == \A i \in 1..n : x.U[i][1] = m0
      least(i) == IF c.level = "sel" THEN x.Q[i][2] ELSE IF c.disc /\ ~x.hZ THEN x.Q[i][2] - 1 ELSE x.Q[i][2]
      inputs == IF c.m = 0 THEN TRUE ELSE x.hU /\ (counts => rows /\ (Funs(c) \/ \A i \in 1..n : x.U[i][2] >= least(i)))
      (* more columns of inputs than are used: extra inputs of fully discrete models, unless left-hand sides say how many there are *)
      surplus == c.m > 0 /\ x.hU /\ counts /\ ~Funs(c) /\ \E i \in 1..n : x.U[i][2] > x.Q[i][2]
      unneeded == c.m = 0 /\ x.hU /\ (n # Len(x.U) \/ \E i \in 1..Len(x.U) : i > n \/ x.U[i][2] # x.Q[i][2])
      good == counts /\ states /\ lhs /\ times /\ inputs
  IN  IF ~good THEN "no"
      ELSE IF unneeded THEN "unspecified"
      ELSE IF surplus THEN (IF ~c.disc \/ (rom /\ x.hZ) THEN "no" ELSE "unspecified")
      ELSE "yes"

Init == /\ hist = <<>> /\ st = 0
        /\ cfg \in {c \in Configs : Hcfg(c) % (Thin * (IF c.level = "sel" THEN 4 ELSE IF c.level = "rom" THEN 3 ELSE 1)) = 0}
(* rows the basis was trained for, if it is kept *)
Kept == IF ~cfg.keepb \/ st = 0 THEN 0 ELSE hist[1].x.Q[1][1]
Step(es, x) == LET n0 == Kept
                   w == Verdict(cfg, x, n0) IN
   /\ w # "unspecified"
   /\ hist' = Append(hist, [edits |-> es, x |-> x, ok |-> w = "yes"])
   /\ st' = (IF w = "yes" THEN Len(hist) + 1 ELSE st)
   /\ UNCHANGED cfg
Key(e) == (CASE e.f = "P" -> 1 [] e.f = "Q" -> 2 [] e.f = "Z" -> 3 [] e.f = "U" -> 4 [] OTHER -> 5) * 64 + e.i * 16 + e.d * 4 + e.by + 1
Good == hist = <<>> /\ Step(<<>>, TLCEval(Base(cfg)))
One == Len(hist) < MaxLen /\ \E e \in Edits(cfg) :
   /\ (hist = <<>> \/ Len(hist) > 1 => Hash3(Hcfg(cfg), Key(e), Len(hist)) % (Keep * 2) = 0) = TRUE
   /\ LET x == TLCEval(Edit(Base(cfg), e)) IN (Positive(x) = TRUE) /\ Step(<<e>>, x)
(* two edits: all those that cancel in a total, some of the others *)
Cancels(e, g) == e.f = g.f /\ e.d = g.d /\ e.by + g.by = 0 /\ e.d > 0
Two == st = 1 /\ Len(hist) = 1 /\ Len(hist) < MaxLen /\ \E e \in Edits(cfg), g \in Edits(cfg) :
   /\ Key(e) < Key(g)
   /\ (Cancels(e, g) \/ Hash3(Hcfg(cfg), Key(e), Key(g)) % Keep = 0) = TRUE
   /\ LET y == TLCEval(Edit(Base(cfg), e)) IN
      /\ (Applies(y, g) = TRUE)
      /\ LET x == TLCEval(Edit(y, g)) IN (Positive(x) = TRUE) /\ Step(<<e, g>>, x)
Next == Good \/ One \/ Two
Spec == Init /\ [][Next]_vars

(* one edit alone is never absorbed where several parts of the call state the same dimension *)
Absorbed == \A k \in 1..Len(hist) : (hist[k].ok /\ Len(hist[k].edits) = 1) =>
   LET e == hist[k].edits[1] IN
   /\ (e.f \in {"P", "T"}) => FALSE
   /\ (e.d = 0 /\ e.by \in {-1, 1}) => (e.f = "Q" /\ cfg.par = "no" /\ cfg.m = 0 /\ ~cfg.lhs /\ ~Funs(cfg))
   /\ (e.d = 1) => cfg.n = 1 /\ e.f # "Z"
   /\ (e.f = "Z") => e.by = 0 /\ cfg.disc
   /\ (e.f = "U" /\ e.by = 0) => FALSE
Emit == Len(hist) = MaxLen => PrintT("B@" \o ToJson([c |-> cfg, h |-> hist]))
=============================================================================
