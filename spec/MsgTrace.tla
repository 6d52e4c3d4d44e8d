------------------------------- MODULE MsgTrace -------------------------------
(***************************************************************************)
(* The messages of the cache's ports.  What is recorded: the bits of a     *)
(* message object and the value of each of its fields (most significant    *)
(* bit first), and the numbers the code gives the transaction types under  *)
(* each of the names it uses for them.                                     *)
(*                                                                         *)
(* Fields, from the most significant end:                                  *)
(*   request   type 4 | opaque | addr | len | [wr_mask] | data             *)
(*   response  type 4 | opaque | test 2 | len | [wr_mask] | data           *)
(* len has log2(data bytes) bits; wr_mask, present only towards memory,    *)
(* one bit per 32 bits of data.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, i, bad
vars == <<tr, i, bad>>

T  == Traces[tr]
ev == T.ev[i]
First(S) == {x \in S : \A y \in S : y[1] = x[1] => x[2] <= y[2]}

Log2(n) == CHOOSE k \in 0..10 : 2 ^ k = n

Layout(e) ==
  <<[f |-> "type_", n |-> 4], [f |-> "opaque", n |-> e.obw]>>
  \o (IF e.kind = "req" THEN <<[f |-> "addr", n |-> e.abw]>> ELSE <<[f |-> "test", n |-> 2]>>)
  \o <<[f |-> "len", n |-> Log2(e.dbw \div 8)]>>
  \o (IF e.mask = 1 THEN <<[f |-> "wr_mask", n |-> e.dbw \div 32]>> ELSE <<>>)
  \o <<[f |-> "data", n |-> e.dbw]>>

RECURSIVE Cat(_, _, _)
Cat(e, lay, k) == IF k > Len(lay) THEN <<>> ELSE e.val[lay[k].f] \o Cat(e, lay, k + 1)

Code == [ READ |-> 0, WRITE |-> 1, WRITE_INIT |-> 2, INIT |-> 2, AMO |-> 3, AMO_ADD |-> 3, AMO_AND |-> 4, AMO_OR |-> 5,
          AMO_SWAP |-> 6, AMO_MIN |-> 7, AMO_MINU |-> 8, AMO_MAX |-> 9, AMO_MAXU |-> 10, AMO_XOR |-> 11,
          LR |-> 12, SC |-> 13, INV |-> 14, FLUSH |-> 15 ]

Wrong ==
  CASE ev.k = "msg" ->
         LET lay == Layout(ev) IN
         IF DOMAIN ev.val # {lay[k].f : k \in DOMAIN lay} THEN {"msg.fields"}
         ELSE (IF \E k \in DOMAIN lay : Len(ev.val[lay[k].f]) # lay[k].n THEN {"msg.width"} ELSE {})
              \cup (IF ev.raw # Cat(ev, lay, 1) THEN {"msg.layout"} ELSE {})
    [] ev.k = "type" -> IF ev.name \in DOMAIN Code /\ Code[ev.name] = ev.n THEN {} ELSE {"msg.type"}

Init == tr \in DOMAIN Traces /\ i = 1 /\ bad = {}
Next == /\ i <= Len(T.ev)
        /\ bad' = bad \cup {<<c, i>> : c \in Wrong}
        /\ i' = i + 1 /\ tr' = tr
        /\ IF i = Len(T.ev) THEN PrintT(<<"VERDICT", T.id, First(bad')>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<tr, i>>
================================================================================
