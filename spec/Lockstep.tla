------------------------------- MODULE Lockstep -------------------------------
(***************************************************************************)
(* Two implementations of one interface, stepped with the same inputs:     *)
(* the PyMTL3 simulation (p) and the generated Verilog (v).  The Verilog   *)
(* refines the simulation if in every cycle both show the same ready and   *)
(* enable wires, and the same message wherever a message is transferred.   *)
(* Each recorded cycle is one step; total verdicts as in CacheTrace.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, i, bad
vars == <<tr, i, bad>>
ev == Traces[tr].ev[i]
C(ok, name) == IF ok THEN {} ELSE {name}

\* x = [rr, re, rm, me, mm, mr]: request ready, response en/message, memory
\* request en/message, memory response ready
StepBad(p, v) ==
  C(p.rr = v.rr /\ p.mr = v.mr, "lock.ready")
  \cup C(p.re = v.re, "lock.resp_en") \cup C(p.me = v.me, "lock.mreq_en")
  \cup C(p.re = 1 /\ v.re = 1 => p.rm = v.rm, "lock.resp_msg")
  \cup C(p.me = 1 /\ v.me = 1 => p.mm = v.mm, "lock.mreq_msg")

First(S) == {x \in S : \A y \in S : y[1] = x[1] => x[2] <= y[2]}

Init == tr \in DOMAIN Traces /\ i = 1 /\ bad = {}
Next ==
  /\ i <= Len(Traces[tr].ev)
  /\ bad' = bad \cup {<<x, i>> : x \in StepBad(ev.p, ev.v)}
  /\ i' = i + 1
  /\ tr' = tr
  /\ IF i' > Len(Traces[tr].ev) THEN PrintT(<<"VERDICT", Traces[tr].id, First(bad')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<tr, i>>
================================================================================
