---------------------------- MODULE PosteriorMC ----------------------------
(***************************************************************************)
(* Posteriors as objects of their own: constructed from means and          *)
(* precisions or covariances, rows of equal or different lengths, saved,   *)
(* loaded, copied, compared.  A posterior is what it was constructed from: *)
(* its means and, row by row, the covariance.                               *)
(* objs: two places for objects, files: one file; 0 empty, else the number  *)
(* of the distribution.                                                     *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Shapes, Seeds, MaxLen, Stride
VARIABLES cfg, head, objs, file, hist, h
vars == <<cfg, head, objs, file, hist, h>>

ND == 4
SPD(s, d) == LET M == RandMat(s, d, d, -2, 2) IN IAdd(IMul(T(M), M), IEye(d))
(* distribution 4 has the means of 3 with one covariance different; 2 the covariances of 1 with one mean different *)
Dist(j) == LET base == IF j = 2 THEN 1 ELSE IF j = 4 THEN 3 ELSE j
               n == Len(cfg.shape)
               mu(i) == LET v == [RandVec(cfg.s * 13 + base * 101 + i, cfg.shape[i], -3, 3) EXCEPT ![1] = @ + (IF base = 3 THEN 9 ELSE 0)] IN
                        IF j = 2 /\ i = n THEN [v EXCEPT ![1] = v[1] + 1] ELSE v
               P(i) == LET M == SPD(cfg.s * 17 + base * 103 + i * 7, cfg.shape[i]) IN
                       IF j = 4 /\ i = n THEN [M EXCEPT ![1][1] = M[1][1] + 1] ELSE M
           IN [means |-> [i \in 1..n |-> mu(i)], P |-> [i \in 1..n |-> P(i)], C |-> [i \in 1..n |-> IInv(P(i))]]
Init == \E x \in Shapes : \E s \in Seeds :
   /\ cfg = [shape |-> x, s |-> s] /\ head = <<>> /\ objs = <<0, 0>> /\ file = 0 /\ hist = <<>> /\ h = Hash2(s, Len(x))
Gen == head = <<>> /\ head' = TLCEval([j \in 1..ND |-> Dist(j)]) /\ UNCHANGED <<cfg, objs, file, hist, h>>
Do(a, o, v, bad, code) ==
   LET g == Hash2(h, code) IN
   /\ ((g \div 7) % Stride) = 0
   /\ h' = g /\ hist' = Append(hist, [a |-> a, o |-> o, v |-> v, bad |-> bad, objs |-> objs', file |-> file', eq |-> objs'[1] = objs'[2]])
   /\ UNCHANGED <<cfg, head>>
(* constructed from precisions (inv = 0) or covariances (inv = 1)            *)
New == \E o \in 1..2 : \E j \in 1..ND : \E inv \in 0..1 : objs' = [objs EXCEPT ![o] = j] /\ UNCHANGED file /\ Do("new", o, 2 * j + inv, FALSE, o * 20 + 2 * j + inv)
Save == \E o \in 1..2 : \E ow \in 0..1 : objs[o] > 0 /\ UNCHANGED objs /\
   file' = (IF file = 0 \/ ow = 1 THEN objs[o] ELSE file) /\ Do("save", o, ow, (file > 0 /\ ow = 0), 100 + o * 2 + ow)
Load == \E o \in 1..2 : UNCHANGED file /\ objs' = (IF file > 0 THEN [objs EXCEPT ![o] = file] ELSE objs) /\ Do("load", o, 0, file = 0, 110 + o)
Copy == \E o \in 1..2 : objs[o] > 0 /\ UNCHANGED file /\ objs' = [objs EXCEPT ![3 - o] = objs[o]] /\ Do("copy", o, 0, FALSE, 120 + o)
Draw == \E o \in 1..2 : objs[o] > 0 /\ UNCHANGED <<objs, file>> /\ Do("draw", o, 0, FALSE, 130 + o)
(* through a group of a file the caller has open, which stays open           *)
Group == \E o \in 1..2 : objs[o] > 0 /\ UNCHANGED file /\ objs' = [objs EXCEPT ![3 - o] = objs[o]] /\ Do("group", o, 0, FALSE, 150 + o)
(* a file with something else in it is not a posterior, and stays as it is    *)
Foreign == \E k \in 1..3 : UNCHANGED <<objs, file>> /\ Do("foreign", 1, k, TRUE, 160 + k)
Refused == \E k \in 1..6 : UNCHANGED <<objs, file>> /\ Do("bad", 1, k, TRUE, 140 + k)
Next == Gen \/ (head # <<>> /\ Len(hist) < MaxLen /\ (New \/ Save \/ Load \/ Copy \/ Draw \/ Group \/ Foreign \/ Refused))
Spec == Init /\ [][Next]_vars
Distinct == head # <<>> => \A i, j \in 1..ND : head[i] = head[j] => i = j
Symmetric == head # <<>> => \A j \in 1..ND : \A i \in 1..Len(cfg.shape) : T(head[j].C[i]) = head[j].C[i]
FileKept == [][file' # file => LET e == hist'[Len(hist')] IN e.a = "save" /\ ~e.bad]_vars
Emit == (Len(hist) = MaxLen /\ (objs[1] > 0 \/ objs[2] > 0)) => PrintT("B@" \o ToJson([cfg |-> cfg, dists |-> head, hist |-> hist]))
=============================================================================
