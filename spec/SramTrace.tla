------------------------------- MODULE SramTrace -------------------------------
(***************************************************************************)
(* A single-ported synchronous SRAM with bit-write enables.  One recorded  *)
(* clock cycle is one step: the port's inputs and the data shown on the    *)
(* read port in that cycle.                                                *)
(*   - a cycle with val = 1, type = 1 replaces exactly the enabled bits of *)
(*     exactly the addressed word                                          *)
(*   - a cycle with val = 1, type = 0 is a read: in the next cycle the     *)
(*     port shows the addressed word                                       *)
(*   - a cycle with val = 0 changes nothing                                *)
(* Bits never written are unknown (2) and unconstrained.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, i, ram, due, bad
vars == <<tr, i, ram, due, bad>>

T  == Traces[tr]
ev == T.ev[i]
N  == T.bits
First(S) == {x \in S : \A y \in S : y[1] = x[1] => x[2] <= y[2]}

Unknown == [b \in 1..N |-> 2]
WordAt(a) == IF a \in DOMAIN ram THEN ram[a] ELSE Unknown
Merge(old, d, en) == [b \in 1..N |-> IF en[b] = 1 THEN d[b] ELSE old[b]]
Agrees(shown, w) == \A b \in 1..N : w[b] # 2 => shown[b] = w[b]

Init == tr \in DOMAIN Traces /\ i = 1 /\ ram = <<>> /\ due = <<>> /\ bad = {}

Write == /\ ev.val = 1 /\ ev.ty = 1
         /\ ram' = [a \in DOMAIN ram \cup {ev.a} |->
                      IF a = ev.a THEN Merge(WordAt(a), ev.d, ev.en) ELSE ram[a]]
         /\ due' = <<>>
Read  == /\ ev.val = 1 /\ ev.ty = 0
         /\ ram' = ram
         /\ due' = WordAt(ev.a)
Idle  == /\ ev.val = 0
         /\ UNCHANGED ram
         /\ due' = <<>>

Next == /\ i <= Len(T.ev)
        /\ bad' = bad \cup (IF due = <<>> \/ Agrees(ev.q, due) THEN {} ELSE {<<"sram.read", i>>})
        /\ Write \/ Read \/ Idle
        /\ i' = i + 1 /\ tr' = tr
        /\ IF i = Len(T.ev) THEN PrintT(<<"VERDICT", T.id, First(bad')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<tr, i>>
================================================================================
