------------------------------- MODULE ConfigMC -------------------------------
(***************************************************************************)
(* Models as containers of operators.  The state is the list of operators  *)
(* of a model (none before it was made), the dimensions set on it, and its *)
(* solver.  Every assignment is accepted exactly when the list is well     *)
(* formed, and then determines everything the model reports; a refused one *)
(* changes nothing.                                                        *)
(* An operator is [t, form, known, r, m, p, id]: its type, what kind of     *)
(* object it is, whether it has entries, their dimensions, the number of    *)
(* parameters (0: not known), and a number that distinguishes objects.     *)
(***************************************************************************)
EXTENDS Ops, Json
CONSTANTS Kinds, Seeds, MaxLen, Lists, Keep
VARIABLES cfg, st, hist
vars == <<cfg, st, hist>>

Par(kd) == kd \in {"pd", "pc"}        \* parametric
Itp(kd) == kd \in {"id", "ic"}              \* interpolated
TypeAt == <<"c", "A", "H", "G", "B", "N", "Q">>
FormsOf(kd) == IF Par(kd) THEN <<"affine", "poly", "interp", "affine", "poly", "user", "affine", "std">>
               ELSE IF Itp(kd) THEN <<"interp", "abbr", "interp", "interp">>
               ELSE <<"std", "abbr", "poly", "user", "std", "abbr">>
BadForms(kd) == IF Par(kd) THEN <<"abbr", "junk", "class">> ELSE IF Itp(kd) THEN <<"std", "affine", "junk", "badabbr">>
                ELSE <<"affine", "interp", "junk", "badabbr", "class">>

H3(s, i, j) == Hash3(s, i, j) \div 5
(* the k-th list of operators that can be given to the model: mostly well formed *)
OpAt(kd, s, k, i) ==
  LET z(j) == H3(s * 13 + k, i, j)
      bad == z(1) % 23 = 0
      form0 == IF bad THEN BadForms(kd)[1 + (z(2) % Len(BadForms(kd)))] ELSE FormsOf(kd)[1 + (z(3) % Len(FormsOf(kd)))]
      t0 == TypeAt[1 + ((H3(s, k, 5) + i * (1 + (H3(s, k, 6) % 2)) + (IF z(4) % 5 = 0 THEN 1 ELSE 0)) % 7)]
      t == IF form0 = "abbr" /\ t0 = "Q" THEN "A" ELSE IF form0 \in {"affine", "interp"} /\ t0 = "Q" THEN "H" ELSE t0
      form == IF form0 = "poly" /\ t \in {"B", "N"} THEN "std" ELSE form0
      known == form = "user" \/ (form \notin {"abbr", "badabbr", "junk", "class"} /\ (IF k % 3 = 0 THEN TRUE ELSE z(7) % 2 = 0))
      r == (1 + (s % 3)) + (IF z(8) % 15 = 0 THEN 1 ELSE 0)
      m == (1 + (s % 2)) + (IF z(9) % 9 = 0 THEN 1 ELSE 0)
      p == IF form = "interp" THEN (IF known \/ z(10) % 3 = 0 THEN 1 + (s % 2) + (IF z(11) % 9 = 0 THEN 1 ELSE 0) ELSE 0)
           ELSE IF form = "affine" THEN (IF z(10) % 3 = 0 THEN 1 + (s % 2) + (IF z(11) % 6 = 0 THEN 1 ELSE 0) ELSE 0) ELSE 0
  IN  [t |-> t, form |-> form, known |-> known, r |-> r, m |-> IF NeedsInput(t) THEN m ELSE 0, p |-> p, id |-> k * 10 + i]
ListAt(kd, s, k) ==
  LET n == IF H3(s, k, 9) % 11 = 0 THEN 0 ELSE 1 + (H3(s, k, 10) % 4)
  IN  TLCEval([i \in 1..n |-> OpAt(kd, s, k, i)])

----------------------------------------------------------------------------
(* well-formed lists *)
Recognised(kd, o) == IF Par(kd) THEN o.form \in {"std", "poly", "user", "affine", "interp"}
                     ELSE IF Itp(kd) THEN o.form \in {"interp", "abbr"}
                     ELSE o.form \in {"std", "poly", "user", "abbr"}
Known(ops) == {i \in 1..Len(ops) : ops[i].known}
Unknown(ops) == {i \in 1..Len(ops) : ~ops[i].known}
Agree(S) == Cardinality(S) <= 1
Rs(ops) == {ops[i].r : i \in Known(ops)}
Ms(ops) == {ops[i].m : i \in {j \in Known(ops) : NeedsInput(ops[j].t)}}
Ps(ops) == {ops[i].p : i \in {j \in 1..Len(ops) : ops[j].form \in {"affine", "interp"} /\ ops[j].p > 0}}
HasInputs(ops) == \E i \in 1..Len(ops) : NeedsInput(ops[i].t)
Wrong(kd, ops) ==
  (IF Len(ops) = 0 THEN {"empty"} ELSE {})
  \union (IF \E i \in 1..Len(ops) : ~Recognised(kd, ops[i]) THEN {"type"} ELSE {})
  \union (IF \E i, j \in Unknown(ops) : i < j /\ ops[i].t = ops[j].t THEN {"twice"} ELSE {})
  \union (IF Agree(Rs(ops)) THEN {} ELSE {"r"}) \union (IF Agree(Ms(ops)) THEN {} ELSE {"m"})
  \union (IF (Par(kd) \/ Itp(kd)) /\ ~Agree(Ps(ops)) THEN {"p"} ELSE {})
The(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE           \* 0 stands for "not known"

(* what a model made of these operators reports *)
Report(kd, ops) == [ops |-> ops, r |-> The(Rs(ops)), m |-> The(Ms(ops)), p |-> The(Ps(ops)), solver |-> IF Unknown(ops) = {} THEN "none" ELSE "Plain"]

(* two models are equal when their operators can be paired one to one: with the i-th operator in place of a different j-th they are not *)
Differ(o1, o2, s) == o1.t # o2.t \/ o1.form # o2.form \/ o1.m # o2.m \/ RandMat(s * 3 + o1.id, o1.r, OpDim(o1.t, o1.r, o1.m), -2, 2) # RandMat(s * 3 + o2.id, o2.r, OpDim(o2.t, o2.r, o2.m), -2, 2)
Unequal(ops, s) == {<<i, j>> \in Known(ops) \X Known(ops) : i # j /\ Differ(ops[i], ops[j], s)}
(* the operator of a type: the first one of that class *)
First(kd, ops, t) == LET S == {i \in 1..Len(ops) : ops[i].t = t /\ ops[i].form \in {"std", "abbr", "affine", "interp"}}
                     IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Entries(o, s) == RandMat(s * 3 + o.id, o.r, OpDim(o.t, o.r, o.m), -2, 2)
AsOp(o, s) == [t |-> o.t, r |-> o.r, m |-> o.m, E |-> Entries(o, s)]
Ready(kd, x) == x # <<>> /\ Unknown(x.ops) = {} /\ ~Par(kd) /\ ~Itp(kd)
Rhs(kd, x, s) == IF ~Ready(kd, x) THEN <<>>
                 ELSE LET ops == TLCEval([i \in 1..Len(x.ops) |-> AsOp(x.ops[i], s)])
                          q == RandVec(s + 1, x.r, -2, 2)  u == RandVec(s + 2, x.m, -2, 2)
                      IN  [q |-> q, u |-> u, y |-> RhsOf(ops, q, u), J |-> RhsJac(ops, q, u)]
Obs(kd, x, s) == IF x = <<>> THEN [made |-> FALSE]
                 ELSE [made |-> TRUE, r |-> x.r, m |-> x.m, p |-> x.p, solver |-> x.solver, inputs |-> HasInputs(x.ops), n |-> Len(x.ops),
                       ids |-> [i \in 1..Len(x.ops) |-> IF x.ops[i].form = "abbr" THEN 0 ELSE x.ops[i].id],
                       ts |-> [i \in 1..Len(x.ops) |-> x.ops[i].t],
                       known |-> [i \in 1..Len(x.ops) |-> x.ops[i].known],
                       unequal |-> Unequal(x.ops, s),
                       first |-> [j \in 1..6 |-> First(kd, x.ops, TypeAt[j])],
                       rhs |-> Rhs(kd, x, s)]

----------------------------------------------------------------------------
Init == /\ hist = <<>> /\ st = <<>>
        /\ \E kd \in Kinds, s \in Seeds : cfg = [kind |-> kd, s |-> s]
Step(a, ok, new) == /\ st' = (IF ok THEN new ELSE st)
                    /\ hist' = Append(hist, a @@ [ok |-> ok, obs |-> Obs(cfg.kind, IF ok THEN new ELSE st, cfg.s)])
                    /\ UNCHANGED cfg
Room == Len(hist) < MaxLen
Offered(k) == IF st = <<>> THEN TRUE ELSE H3(cfg.s * 7 + Len(hist), k, 11) % Keep = 0
(* operators of the interpolated and parametric models keep the number of parameters a model once gave them: objects are used for one list *)
Assign == /\ Room
          /\ \E k \in 1..Lists :
               LET ops == ListAt(cfg.kind, cfg.s, k)
                   wrong == Wrong(cfg.kind, ops)
                   new == Report(cfg.kind, ops)
                   kept == IF st = <<>> THEN new
                           ELSE IF new.solver = "none" THEN [new EXCEPT !.solver = IF st.solver = "none" THEN "none" ELSE "free"]
                           ELSE [new EXCEPT !.solver = IF st.solver \in {"none", "free"} THEN "some" ELSE st.solver]
               IN  /\ Offered(k) = TRUE
                   /\ Step([op |-> IF st = <<>> THEN "new" ELSE "operators", k |-> k, ops |-> ops, wrong |-> wrong,
                            single |-> (H3(cfg.s, k, 12) % 2 = 0), seed |-> cfg.s,
                            entries |-> [i \in 1..Len(ops) |-> Entries(ops[i], cfg.s)]],
                           wrong = {}, kept)
SetR == /\ Room /\ st # <<>>
        /\ \E r \in 1..3 : /\ (H3(cfg.s, r, Len(hist)) % 3 = 0) = TRUE
                           /\ Step([op |-> "r", x |-> r], \A i \in Known(st.ops) : st.ops[i].r = r, [st EXCEPT !.r = r])
SetM == /\ Room /\ st # <<>>
        /\ \E m \in 0..3 : /\ (H3(cfg.s, m + 10, Len(hist)) % 3 = 0) = TRUE
                           /\ (HasInputs(st.ops) => m > 0)
                           /\ Step([op |-> "m", x |-> m],
                                   IF HasInputs(st.ops) THEN \A x \in Ms(st.ops) : x = m ELSE m = 0, [st EXCEPT !.m = m])
SetSolver == /\ Room /\ st # <<>>
             /\ \E x \in {"none", "zero", "number", "L2", "TSVD", "class", "negative"} :
                  /\ (H3(cfg.s, Len(x), Len(hist)) % 4 = 0) = TRUE
                  /\ LET all == Unknown(st.ops) = {} IN
                     Step([op |-> "solver", x |-> x], all \/ x \notin {"class", "negative"},
                          [st EXCEPT !.solver = IF all THEN "none" ELSE CASE x \in {"none", "zero"} -> "Plain" [] x \in {"number", "L2"} -> "L2" [] OTHER -> "TSVD"])
Next == Assign \/ SetR \/ SetM \/ SetSolver
Spec == Init /\ [][Next]_vars

Finished == Len(hist) = MaxLen
(* the dimensions reported are those of every known operator *)
Consistent == st # <<>> => /\ \A i \in Known(st.ops) : st.ops[i].r = st.r /\ (NeedsInput(st.ops[i].t) => st.ops[i].m = st.m)
                           /\ (st.solver \in {"none", "free"} <=> Unknown(st.ops) = {})
Emit == Finished => PrintT("B@" \o ToJson([cfg |-> cfg, h |-> hist]))
=============================================================================
