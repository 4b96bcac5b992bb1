----------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Validates recorded sessions of the real code against Session.           *)
(*                                                                         *)
(* The file named by the environment variable SESSIONS has one session per *)
(* line: [judge |-> names of the calls this run judges,                    *)
(*        evs   |-> sequence of [c |-> call, r |-> results]].              *)
(* r has one result, or, for a call that several threads made at once, all *)
(* the different results they got.                                         *)
(*                                                                         *)
(* One step per recorded event.  The result of a judged call must be       *)
(* admissible; the state then continues with what the code returned, so    *)
(* that each call is judged on the objects it was really given.  A session *)
(* with a rejected event is reported and not continued.  Nor is one in     *)
(* which a call that is not judged made something that is no signal: what  *)
(* comes after it cannot be judged.                                        *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.SESSIONS)

VARIABLES sid, pos, st
vars == <<sid, pos, st>>

Judged(s, ev) == \E i \in DOMAIN s.judge : s.judge[i] = ev.op

\* Formulas that are nested very deep are recorded as their nodes, operands first.
Formed(nodes) ==
  Last(FoldLeft(LAMBDA acc, n :
         Append(acc, CASE n.k \in {"const", "pred"} -> n
                       [] n.k \in {"and", "or"} -> [n EXCEPT !.as = [i \in DOMAIN @ |-> acc[@[i]]]]
                       [] n.k = "U" -> [n EXCEPT !.a = acc[@], !.b = acc[@]]
                       [] OTHER -> [n EXCEPT !.a = acc[@]]),
         <<>>, nodes))
Thaw(r) == IF "nodes" \in DOMAIN r THEN [e |-> Formed(r.nodes)] @@ r ELSE r
ThawAll(m) == [i \in DOMAIN m |-> Thaw(m[i])]
Thawed(r) ==
  IF "sp" \in DOMAIN r THEN [r EXCEPT !.sp = [f |-> ThawAll(@.f), a |-> ThawAll(@.a)]] ELSE Thaw(r)

Verdict(s, e, now) ==
  IF ~Judged(s, e.c) \/ ~Ready(e.c, now) THEN {}
  ELSE IF Len(e.r) > 1 THEN {"the same result from every thread"}
  ELSE Faults(e.c, e.r[1], now)

Remember(s, e, now) ==
  IF "keep" \in DOMAIN e.c /\ e.c.keep
  THEN [now EXCEPT !.hist = Append(@, Seen(e.r[1]))] ELSE now

\* What the client holds are signals.
MadeSignals(e) ==
  LET r == e.r[1] IN
  /\ "s" \in DOMAIN r => IsSignal(r.s)
  /\ "s2" \in DOMAIN r => IsSignal(r.s2)

Init == sid \in 1..Len(Sessions) /\ pos = 0 /\ st = Empty

Next ==
  LET s == Sessions[sid] IN
  /\ pos < Len(s.evs)
  /\ LET rec == s.evs[pos + 1]
         e == [c |-> rec.c, r |-> TLCEval([i \in DOMAIN rec.r |-> Thawed(rec.r[i])])]
         f == Verdict(s, e, st)
     IN IF f # {}
        THEN /\ PrintT(<<"REJECTED", sid, pos + 1, f>>)
             /\ pos' = Len(s.evs) /\ UNCHANGED <<sid, st>>
        ELSE IF ~MadeSignals(e)
        THEN /\ PrintT(<<"ABANDONED", sid, pos + 1>>)
             /\ pos' = Len(s.evs) /\ UNCHANGED <<sid, st>>
        ELSE /\ pos' = pos + 1
             /\ sid' = sid
             /\ st' = IF Ready(e.c, st) THEN Remember(s, e, After(e.c, e.r[1], st)) ELSE st

\* A session's state is a function of its position.
View == <<sid, pos>>
=============================================================================
