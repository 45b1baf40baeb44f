------------------------------ MODULE TimerMC ------------------------------
(***************************************************************************)
(* Nested timed blocks.  Time is counted in tenths of a second and passes   *)
(* only by sleeping (wall clock) or working (wall clock and processor).     *)
(* A block with a limit has a deadline; the earliest deadline among the     *)
(* open blocks strikes first, wherever the program is: the error travels    *)
(* outwards through the blocks inside, the block whose limit it was turns   *)
(* it into its time-limit error, and the program may catch that at any      *)
(* level further out.  Errors of the program itself travel unchanged.       *)
(***************************************************************************)
EXTENDS Num, Json
CONSTANTS Limits, Durations, MaxDepth, MaxLen, Stride
VARIABLES cfg, now, open, used, hist, h
vars == <<cfg, now, open, used, hist, h>>

Init == \E verb \in BOOLEAN : \E early \in BOOLEAN : \E handler \in {"default", "user", "ignore"} :
   /\ cfg = [verbose |-> verb, early |-> early, handler |-> handler]
   /\ now = 0 /\ open = <<>> /\ used = 0 /\ hist = <<>>
   /\ h = Hash2(IF verb THEN 1 ELSE 2, IF early THEN 3 ELSE 4)

(* e: what happened; closed: the blocks that were left, innermost first      *)
Log(e, code) == LET g == Hash2(h, code) IN
   /\ (Stride = 1 \/ ((g \div 7) % Stride) = 0)
   /\ h' = g /\ hist' = Append(hist, e) /\ UNCHANGED cfg
Ev(a, x, y) == [a |-> a, x |-> x, y |-> y, closed |-> <<>>, exc |-> "none", level |-> Len(open), at |-> now]
Closed(b, how, t) == [id |-> b.id, how |-> how, elapsed |-> t - b.t0]

Enter == \E l \in Limits : \E reb \in BOOLEAN :
   /\ Len(open) < MaxDepth
   /\ \A i \in 1..Len(open) : open[i].dl = 0 \/ l = 0 \/ open[i].dl # now + 10 * l       \* no two at the same instant
   /\ open' = Append(open, [id |-> used + 1, l |-> l, t0 |-> now, dl |-> IF l = 0 THEN 0 ELSE now + 10 * l])
   /\ used' = used + 1 /\ now' = now
   /\ Log([Ev("enter", l, IF reb THEN 1 ELSE 0) EXCEPT !.level = Len(open) + 1], 3 * l + (IF reb THEN 1 ELSE 0))
(* the error leaves all blocks above level c; k is the block whose deadline  *)
(* struck (0: an error of the program)                                       *)
Leave(e, c, k, t) ==
   /\ open' = SubSeq(open, 1, c)
   /\ now' = t /\ used' = used
   /\ Log([e EXCEPT !.closed = TLCEval([i \in 1..(Len(open) - c) |-> LET j == Len(open) + 1 - i IN Closed(open[j], IF j = k THEN "expired" ELSE "error", t)]),
                    !.exc = IF k = 0 THEN "program" ELSE "limit", !.level = c, !.at = t], 100 + 10 * c + k + e.x)
Pass(kind) == \E d \in Durations :
   LET hit == {i \in 1..Len(open) : open[i].dl # 0 /\ open[i].dl <= now + d} IN
   IF hit = {}
   THEN /\ now' = now + d /\ UNCHANGED <<open, used>> /\ Log([Ev(kind, d, 0) EXCEPT !.at = now + d], 40 + d)
   ELSE LET k == CHOOSE i \in hit : \A j \in hit : open[i].dl <= open[j].dl IN
        \E c \in 0..(k - 1) : Leave(Ev(kind, d, k), c, k, open[k].dl)
Raise == \E x \in 1..3 : \E c \in 0..(Len(open) - 1) : open # <<>> /\ Leave(Ev("raise", x, 0), c, 0, now)
Exit == /\ open # <<>>
        /\ open' = SubSeq(open, 1, Len(open) - 1) /\ now' = now /\ used' = used
        /\ Log([Ev("exit", 0, 0) EXCEPT !.closed = <<Closed(open[Len(open)], "done", now)>>, !.level = Len(open) - 1], 70)
Say == /\ open # <<>> /\ Len(hist) > 0 /\ hist[Len(hist)].a # "say" /\ UNCHANGED <<now, open, used>> /\ Log(Ev("say", 0, 0), 80)
(* the last steps close what is open                                         *)
Next == \/ Len(hist) < MaxLen /\ (Enter \/ Pass("sleep") \/ Pass("work") \/ Raise \/ Exit \/ Say)
        \/ Len(hist) >= MaxLen /\ open # <<>> /\ Exit
Spec == Init /\ [][Next]_vars

(* no open block is beyond its deadline; deadlines outlive inner blocks      *)
InTime == \A i \in 1..Len(open) : open[i].dl = 0 \/ open[i].dl > now
(* a limit strikes exactly when the block has lasted its limit               *)
Exact == [][LET e == hist'[Len(hist')] IN e.exc = "limit" =>
             \E i \in 1..Len(open) : /\ open[i].dl = e.at /\ e.at - open[i].t0 = 10 * open[i].l
                                     /\ \E j \in 1..Len(e.closed) : e.closed[j].id = open[i].id /\ e.closed[j].how = "expired"]_vars
Nested == [][Len(open') > Len(open) => SubSeq(open', 1, Len(open)) = open]_vars
Emit == (Len(hist) >= MaxLen /\ open = <<>> /\ used > 0) => PrintT("B@" \o ToJson([cfg |-> cfg, hist |-> hist]))
=============================================================================
