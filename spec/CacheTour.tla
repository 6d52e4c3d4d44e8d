------------------------------ MODULE CacheTour ------------------------------
(***************************************************************************)
(* The reachable policy states of ONE set and every request in each of     *)
(* them.  TLC enumerates the graph and prints every transition; the        *)
(* harness turns it into request sequences that together take every        *)
(* transition, and replays them on the real cache.                         *)
(***************************************************************************)
EXTENDS CacheCore, TLC, Json

CONSTANTS Ways, Tags, NWords

VARIABLE row
Words == 1..NWords

Reqs == [op : {"read", "amo"}, tag : Tags, w : {0}] \cup [op : {"write"}, tag : Tags, w : Words]
        \cup {[op |-> "inv", tag |-> 0, w |-> 0], [op |-> "flush", tag |-> 0, w |-> 0]}

Apply(r, q) ==
  CASE q.op = "read"  -> Access(r, Ways, <<q.tag>>, {}).row
    [] q.op = "write" -> Access(r, Ways, <<q.tag>>, {q.w}).row
    [] q.op = "amo"   -> Amo(r, Ways, <<q.tag>>).row
    [] q.op = "inv"   -> InvRow(r)
    [] q.op = "flush" -> FlushRow(r)

Init == row = EmptyRow(Ways)
Next == \E q \in Reqs :
          /\ row' = Apply(row, q)
          /\ PrintT("EDGE" \o ToJson(<<row, q, row'>>))
Spec == Init /\ [][Next]_row
OK == RowOK(row, Ways)
==============================================================================
