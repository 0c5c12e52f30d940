----------------------------- MODULE HidSession -----------------------------
(***************************************************************************)
(* Several jobs in one process.  Each job reads its input item by item and *)
(* may hold items back until it is closed; jobs are started, stepped,      *)
(* closed and aborted in any order.  A job has no state but its own, so    *)
(* that what a closed job has written depends on its input only.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Idle == [st |-> "idle", at |-> 0, held |-> <<>>, out |-> <<>>]
\* What the abstract job does to one item: equal neighbours are merged, so
\* that the last item is held back.
Offer(s, it) == IF s.held = <<>> THEN [s EXCEPT !.held = <<it>>]
                ELSE IF s.held[1] = it THEN s
                ELSE [s EXCEPT !.out = Append(@, s.held[1]), !.held = <<it>>]
Flush(s) == [s EXCEPT !.out = @ \o s.held, !.held = <<>>, !.st = "done"]
Alone(input) == Flush(FoldLeft(Offer, Idle, input)).out

(*--- events of a recorded session: <<job, what>> -----------------------------*)
\* start, item (the job has taken an item and waits), end, stop (aborted)
Phase(p, what) == CASE what = "start" -> IF p = "idle" THEN "live" ELSE "wrong"
                    [] what = "item"  -> IF p = "live" THEN "live" ELSE "wrong"
                    [] what = "end"   -> IF p = "live" THEN "done" ELSE "wrong"
                    [] what = "stop"  -> IF p = "live" THEN "stopped" ELSE "wrong"
Phases(log, n) == FoldLeft(LAMBDA ps, e : [ps EXCEPT ![e[1]] = Phase(@, e[2])], [j \in 1..n |-> "idle"], log)
=============================================================================
