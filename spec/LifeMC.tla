------------------------------- MODULE LifeMC -------------------------------
(***************************************************************************)
(* The life of any object of the package: two objects of one class and two *)
(* places to save to.                                                       *)
(*                                                                          *)
(* What an object does is determined by three numbers only:                *)
(*   tr  the data set of the last training that succeeded (0: none)        *)
(*   ts  the settings in force then (or at the last refit)                 *)
(*   st  the settings now                                                  *)
(* Everything else that happened to it -- earlier training, refused calls, *)
(* being used, copied, saved, loaded; whatever happens to other objects -- *)
(* leaves no trace.  The replay compares every object after every step     *)
(* with one brought to the same three numbers by the shortest way.         *)
(*                                                                          *)
(* A place to save to holds nothing, something foreign, or an object; only *)
(* a permitted save changes it.                                             *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Classes, Acts, MaxLen, Seeds, Stride, Plan
VARIABLES c, s, objs, files, hist, h
vars == <<c, s, objs, files, hist, h>>

Obj(tr, ts, st) == [tr |-> tr, ts |-> ts, st |-> st]
New == Obj(0, 1, 1)
NoObj == Obj(-1, 0, 0)
Nothing == [is |-> "nothing", o |-> NoObj]
Foreign(k) == [is |-> "foreign", o |-> Obj(k, 0, 0)]
Holds(o) == [is |-> "object", o |-> o]
O == 1..2
F == 1..2

Init == \E x \in Classes : \E sd \in Seeds : \E k \in 0..4 :
   /\ (k = 0 \/ (("foreign" \in Acts /\ x.save) /\ k = 1 + (sd % 4)))
   /\ c = x /\ s = [seed |-> sd, k |-> k]
   /\ objs = <<New, NoObj>>
   /\ files = <<Nothing, IF k = 0 THEN Nothing ELSE Foreign(k)>>
   /\ hist = <<>> /\ h = Hash2(Hash2(x.id, sd), k)

Alive(o) == objs[o].tr >= 0
(* one step: name, acting object, argument, and whether it must be refused   *)
Step(a, o, x, bad, code) ==
   LET g == Hash2(h, code) IN
   /\ (Plan = <<>> \/ a \in Plan[Len(hist) + 1]) = TRUE          \* which kinds of calls the histories consist of, in order
   /\ (((g \div 7) % Stride) = 0)
   /\ h' = g
   /\ hist' = Append(hist, [a |-> a, o |-> o, x |-> x, bad |-> bad, objs |-> objs', files |-> files'])
   /\ UNCHANGED <<c, s>>
Code(i, o, x) == (i * 4 + o) * 16 + x
Same == UNCHANGED <<objs, files>>
Put(o, v) == objs' = [objs EXCEPT ![o] = v] /\ UNCHANGED files

Fit == \E o \in O : \E d \in 1..c.nd : "fit" \in Acts /\ Alive(o) /\
   Put(o, Obj(d, objs[o].st, objs[o].st)) /\ Step("fit", o, d, FALSE, Code(1, o, d))
Refit == \E o \in O : "refit" \in Acts /\ c.refit /\ Alive(o) /\
   (IF objs[o].tr > 0 THEN Put(o, Obj(objs[o].tr, objs[o].st, objs[o].st)) ELSE Same) /\
   Step("refit", o, 0, objs[o].tr = 0, Code(2, o, 0))
Set == \E o \in O : \E k \in 1..c.ns : "set" \in Acts /\ Alive(o) /\ c.ns > 1 /\ k # objs[o].st /\ (c.setpre \/ objs[o].tr > 0) /\
   Put(o, Obj(objs[o].tr, objs[o].ts, k)) /\ Step("set", o, k, FALSE, Code(3, o, k))
Reset == \E o \in O : "reset" \in Acts /\ c.reset /\ Alive(o) /\
   Put(o, Obj(0, 1, IF c.rs THEN 1 ELSE objs[o].st)) /\ Step("reset", o, 0, FALSE, Code(4, o, 0))
Refused == \E o \in O : \E k \in 1..c.nb : "bad" \in Acts /\ Alive(o) /\ Same /\ Step("bad", o, k, TRUE, Code(5, o, k))
Use == \E o \in O : "use" \in Acts /\ Alive(o) /\ Same /\ Step("use", o, 0, FALSE, Code(6, o, 0))
Copy == \E o \in O : "copy" \in Acts /\ c.copy /\ Alive(o) /\
   Put(3 - o, objs[o]) /\ Step("copy", o, 0, FALSE, Code(7, o, 0))
Save == \E o \in O : \E f \in F : \E ow \in {0, 1} : "save" \in Acts /\ c.save /\ Alive(o) /\
   (IF files[f].is = "nothing" \/ ow = 1 THEN files' = [files EXCEPT ![f] = Holds(objs[o])] /\ UNCHANGED objs ELSE Same) /\
   Step("save", o, 2 * f + ow, (files[f].is # "nothing" /\ ow = 0), Code(8, o, 2 * f + ow))
Load == \E f \in F : \E o \in O : "load" \in Acts /\ c.save /\
   (IF files[f].is = "object" THEN Put(o, files[f].o) ELSE Same) /\
   Step("load", o, f, files[f].is # "object", Code(9, o, f))
Wrong == \E f \in F : \E k \in 1..c.nw : "wrong" \in Acts /\ c.save /\ files[f].is = "object" /\
   Same /\ Step("wrong", f, k, TRUE, Code(10, f, k))
(* saving into and loading from a group of a file the caller has opened      *)
Group == \E o \in O : "group" \in Acts /\ c.save /\ Alive(o) /\
   Put(3 - o, objs[o]) /\ Step("group", o, 0, FALSE, Code(11, o, 0))
(* the object's own verification; there may be files of any name around      *)
Verify == \E o \in O : "verify" \in Acts /\ c.verify /\ Alive(o) /\ Same /\ Step("verify", o, 0, FALSE, Code(12, o, 0))

Next == Len(hist) < MaxLen /\ (Fit \/ Refit \/ Set \/ Reset \/ Refused \/ Use \/ Copy \/ Save \/ Load \/ Wrong \/ Group \/ Verify)
Spec == Init /\ [][Next]_vars

(* ------------------ checks of the specification itself ------------------ *)
(* only a permitted save changes a file; refused calls change nothing        *)
FilesKept == [][files' # files => LET e == hist'[Len(hist')] IN e.a = "save" /\ ~e.bad]_vars
RefusedKept == [][hist'[Len(hist')].bad => objs' = objs /\ files' = files]_vars
(* one object never changes by what happens to the other                     *)
OthersKept == [][\A o \in O : objs'[o] # objs[o] =>
                   LET e == hist'[Len(hist')] IN
                   IF e.a \in {"copy", "group"} THEN e.o = 3 - o ELSE e.o = o]_vars
Emit == Len(hist) = MaxLen => PrintT("B@" \o ToJson([c |-> c.name, s |-> s, hist |-> hist]))
=============================================================================
