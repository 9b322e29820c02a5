------------------------------- MODULE Trace -------------------------------
(* Is every recorded execution of the real library a behaviour of LibSV?        *)
(*                                                                              *)
(* Cases is a sequence of recorded cases, each [case, mode, ev]: an initial     *)
(* empty world and a sequence of events [op, a, r, ch]: call, arguments, result *)
(* and the objects whose recorded form changed, as <<id, recorded form>>.        *)
(* One behaviour per case; each step consumes one event.  An event that no step *)
(* of the specification explains ends its behaviour with bad = TRUE.             *)
EXTENDS LibSV, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, w, g, bad
vars == <<c, l, w, g, bad>>

Init == c \in 1..Len(Cases) /\ l = 1 /\ w = EmptyWorld /\ g = EmptyGhost /\ bad = FALSE

Ev == Cases[c].ev[l]

\* the world after the event as it was recorded: ch over what the specification had before
Recorded(ch, id) == IF \E i \in 1..Len(ch) : ch[i][1] = id THEN ch[CHOOSE i \in 1..Len(ch) : ch[i][1] = id][2] ELSE Render(w[id])
ChIds(ch) == {ch[i][1] : i \in 1..Len(ch)}
WorldOK(w2, ch) ==
  /\ ChIds(ch) \subseteq DOMAIN w2
  /\ \A id \in DOMAIN w2 : (id \in DOMAIN w \/ id \in ChIds(ch)) /\ SameVal(Recorded(ch, id), Render(w2[id]))

Reject(x) == PrintT(<<"REJECT", Cases[c].case, l, ToJson([op |-> Ev.op, got |-> Ev.r, want |-> x])>>)

Next ==
  /\ ~bad
  /\ l <= Len(Cases[c].ev)
  /\ c' = c
  /\ l' = l + 1
  /\ IF Cases[c].mode = "alive"                        \* only asked to return; arguments are not recorded
     THEN LET ok == Ev.r.k \in {"ok", "err"}
          IN /\ w' = w /\ g' = g /\ bad' = ~ok
             /\ ok \/ Reject("a result or an error")
     ELSE IF Ev.op \in StateOps
     THEN LET o == Step(w, g, Ev.op, Ev.a, Ev.r)
          IN IF o.ok /\ WorldOK(o.w, Ev.ch)
             THEN w' = o.w /\ g' = o.g /\ bad' = FALSE
             ELSE /\ w' = w /\ g' = g /\ bad' = TRUE
                  /\ Reject(IF o.ok THEN [world |-> [id \in DOMAIN o.w |-> Render(o.w[id])], ch |-> Ev.ch] ELSE o.x)
     ELSE LET ok == IF Cases[c].mode = "lax" THEN Survives(Ev.op, Ev.a, Ev.r) ELSE Agrees(Ev.op, Ev.a, Ev.r)
          IN /\ w' = w /\ g' = g /\ bad' = ~ok
             /\ ok \/ Reject(Exp(Ev.op, Ev.a))

Spec == Init /\ [][Next]_vars
=============================================================================
