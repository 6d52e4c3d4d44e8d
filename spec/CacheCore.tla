------------------------------ MODULE CacheCore ------------------------------
(***************************************************************************)
(* The cache's replacement / write-back POLICY as pure operators over one  *)
(* set ("row") of the cache.  One source of truth: the exhaustively        *)
(* checked design model (CacheMC), the stimulus generator (CacheTour), the *)
(* cycle-level pipeline model (CachePipe) and the trace checker            *)
(* (CacheTrace) all use these operators.                                   *)
(*                                                                         *)
(* row   == [w |-> <<e1,..,en>>, lru |-> index of the way to replace next] *)
(* entry == [t |-> tag, v |-> valid?, d |-> set of dirty words]            *)
(* An entry may be invalid and still dirty: INV drops validity only.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

NoTag     == <<>>
EmptyLine == [t |-> NoTag, v |-> FALSE, d |-> {}]
EmptyRow(ways) == [w |-> [k \in 1..ways |-> EmptyLine], lru |-> 1]

\* the other way of a two-way set (a direct-mapped set has no other way)
Other(ways, k) == IF ways = 1 THEN 1 ELSE 3 - k

Hits(row, tag)    == {k \in DOMAIN row.w : row.w[k].v /\ row.w[k].t = tag}
\* lines INVed while dirty: their dirty words are still held by the cache
Ghosts(row, tag)  == {k \in DOMAIN row.w : /\ ~row.w[k].v
                                           /\ row.w[k].d # {}
                                           /\ row.w[k].t = tag}
Holds(row, tag)   == Hits(row, tag) \cup Ghosts(row, tag)

(***************************************************************************)
(* READ / WRITE.  ws = words written ({} for a READ).  Result:             *)
(*   hit    response flag                                                  *)
(*   way    where the line ends up                                         *)
(*   evict  dirty words of the victim that must be written back first      *)
(*   vtag   tag of the victim                                              *)
(*   fill   a line must be fetched                                         *)
(*   keep   words of the fetched line that must NOT be overwritten         *)
(***************************************************************************)
Access(row, ways, tag, ws) ==
  LET H == Hits(row, tag)
      G == Ghosts(row, tag)
  IN IF H # {} THEN
       LET k == CHOOSE x \in H : TRUE IN
       [ hit |-> TRUE, way |-> k, evict |-> {}, vtag |-> NoTag, fill |-> FALSE, keep |-> {},
         row |-> [w |-> [row.w EXCEPT ![k].d = @ \cup ws], lru |-> Other(ways, k)] ]
     ELSE IF G # {} THEN
       LET k == CHOOSE x \in G : TRUE IN
       [ hit |-> FALSE, way |-> k, evict |-> {}, vtag |-> NoTag, fill |-> TRUE, keep |-> row.w[k].d,
         row |-> [w |-> [row.w EXCEPT ![k].v = TRUE, ![k].d = @ \cup ws], lru |-> Other(ways, k)] ]
     ELSE
       LET k == row.lru IN
       [ hit |-> FALSE, way |-> k, evict |-> row.w[k].d, vtag |-> row.w[k].t, fill |-> TRUE, keep |-> {},
         row |-> [w |-> [row.w EXCEPT ![k] = [t |-> tag, v |-> TRUE, d |-> ws]], lru |-> Other(ways, k)] ]

(***************************************************************************)
(* AMO: performed by memory.  A held line is written back (if dirty) and   *)
(* dropped, and its way becomes the next victim; otherwise nothing changes.*)
(***************************************************************************)
Amo(row, ways, tag) ==
  LET S == Holds(row, tag) IN
  IF S = {} THEN [ evict |-> {}, way |-> 0, row |-> row ]
  ELSE LET k == CHOOSE x \in S : TRUE IN
       [ evict |-> row.w[k].d, way |-> k,
         row |-> [w |-> [row.w EXCEPT ![k] = EmptyLine], lru |-> k] ]

\* INV: validity only; dirty words are kept (and still owed to memory)
InvRow(row)   == [row EXCEPT !.w = [k \in DOMAIN row.w |-> [row.w[k] EXCEPT !.v = FALSE]]]
\* FLUSH: everything dirty goes to memory; lines stay as valid as they were
FlushRow(row) == [row EXCEPT !.w = [k \in DOMAIN row.w |-> [row.w[k] EXCEPT !.d = {}]]]
DirtyWays(row) == {k \in DOMAIN row.w : row.w[k].d # {}}

(***************************************************************************)
(* Structural invariants of a row (checked in CacheMC and on every trace). *)
(***************************************************************************)
RowOK(row, ways) ==
  /\ row.lru \in 1..ways
  /\ \A j, k \in DOMAIN row.w :
       (j # k /\ row.w[j].t # NoTag /\ row.w[j].t = row.w[k].t)
         => ~( (row.w[j].v \/ row.w[j].d # {}) /\ (row.w[k].v \/ row.w[k].d # {}) )
==============================================================================
