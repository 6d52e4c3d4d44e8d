------------------------------- MODULE CacheMC -------------------------------
(***************************************************************************)
(* Design model: NC blocking write-back caches (policy: CacheCore) over    *)
(* one memory, with the data actually moving: evictions, refills, AMOs,    *)
(* entry-by-entry INV and FLUSH are separate steps, and memory serves each *)
(* cache's requests in order but at any time.  Checked exhaustively on     *)
(* small constants.                                                        *)
(*                                                                         *)
(* NC = 1: any request at any time; every response must carry what a flat  *)
(* memory updated in request order holds.                                  *)
(* NC > 1: software coherence.  A cache touches a word with READ / WRITE   *)
(* only if every write another cache made to it has been FLUSHed by that   *)
(* cache and has been followed by an INV of this one; words in AmoWords    *)
(* are touched by AMOs only.                                               *)
(*                                                                         *)
(* Fault switches on one deliberate design error: the invariants must then *)
(* fail, which shows that they are not vacuous (see tools/faults.py).      *)
(***************************************************************************)
EXTENDS CacheCore, TLC

CONSTANTS NC, Ways, Sets, Tags, NWords, NVals, AmoWords, Fault

VARIABLES ideal,   \* flat memory: <<tag, set, word>> -> value
          mem,     \* what memory holds
          row,     \* row[c][s]: policy state of one set
          data,    \* data[c][s][k][w]: data array
          txn,     \* the transaction in progress
          mq, mr,  \* memory requests on their way, answers on their way
          unfl,    \* unfl[c]: words written by c since its last FLUSH
          stale,   \* stale[c]: words written by others, not yet INVed by c
          err      \* names of violated response checks
vars == <<ideal, mem, row, data, txn, mq, mr, unfl, stale, err>>

Caches == 1..NC
SetIds == 0..(Sets - 1)
WayIds == 1..Ways
WordIds == 1..NWords
Vals == 0..(NVals - 1)
Addrs == Tags \X SetIds \X WordIds
Idle == [ph |-> "idle"]

T(tag) == <<tag>>
Line(m, tag, s) == [w \in WordIds |-> m[<<tag, s, w>>]]

Init ==
  /\ ideal = [a \in Addrs |-> 0]
  /\ mem = [a \in Addrs |-> 0]
  /\ row = [c \in Caches |-> [s \in SetIds |-> EmptyRow(Ways)]]
  /\ data = [c \in Caches |-> [s \in SetIds |-> [k \in WayIds |-> [w \in WordIds |-> 0]]]]
  /\ txn = [c \in Caches |-> Idle]
  /\ mq = [c \in Caches |-> <<>>]
  /\ mr = [c \in Caches |-> <<>>]
  /\ unfl = [c \in Caches |-> {}]
  /\ stale = [c \in Caches |-> {}]
  /\ err = {}

----------------------------------------------------------------------------
(* the discipline of software coherence (vacuous for one cache) *)
MayAccess(c, a) == /\ (NC > 1 => a[3] \notin AmoWords)
                   /\ a \notin stale[c]
                   /\ \A o \in Caches \ {c} : /\ a \notin unfl[o]
                                              /\ ("q" \in DOMAIN txn[o] => txn[o].q.a # a)   \* no data race
MayAmo(a) == NC > 1 => a[3] \in AmoWords

Wrote(c, a) ==
  /\ unfl' = IF NC = 1 THEN unfl ELSE [unfl EXCEPT ![c] = @ \cup {a}]
  /\ stale' = [o \in Caches |-> IF o = c \/ NC = 1 THEN stale[o] ELSE stale[o] \cup {a}]

----------------------------------------------------------------------------
(* READ and WRITE *)
Words(q) == IF q.op = "write" THEN {q.a[3]} ELSE {}
Acc(c, q) == Access(row[c][q.a[2]], Ways, T(q.a[1]), Words(q))

\* what happens to set / data / response when the line is there
Finish(c, q, way, line, newrow) ==
  LET s  == q.a[2]
      l2 == IF q.op = "write" THEN [line EXCEPT ![q.a[3]] = q.v] ELSE line
  IN /\ row' = [row EXCEPT ![c][s] = newrow]
     /\ data' = [data EXCEPT ![c][s][way] = l2]
     /\ err' = IF q.op = "read" /\ line[q.a[3]] # ideal[q.a] THEN err \cup {"read"} ELSE err
     /\ ideal' = IF q.op = "write" THEN [ideal EXCEPT ![q.a] = q.v] ELSE ideal
     /\ txn' = [o \in Caches |->
           IF o = c THEN Idle
           ELSE IF q.op = "write" /\ txn[o].ph = "inv" THEN [txn[o] EXCEPT !.cov = @ \ {q.a}]
           ELSE txn[o]]
     /\ IF q.op = "write" THEN Wrote(c, q.a) ELSE UNCHANGED <<unfl, stale>>

Start(c, q) ==
  /\ txn[c] = Idle
  /\ q.op \in {"read", "write"}
  /\ MayAccess(c, q.a)
  /\ LET a == Acc(c, q)
         s == q.a[2]
         r == IF Fault = "nodirty" /\ q.op = "write" /\ a.hit THEN Access(row[c][s], Ways, T(q.a[1]), {}).row ELSE a.row
     IN IF a.hit
        THEN /\ Finish(c, q, a.way, data[c][s][a.way], r)
             /\ UNCHANGED <<mem, mq, mr>>
        ELSE /\ txn' = [txn EXCEPT ![c] =
                  [ph |-> IF a.evict # {} /\ Fault # "noevict" THEN "evict" ELSE "fetch", q |-> q]]
             /\ UNCHANGED <<ideal, mem, row, data, mq, mr, unfl, stale, err>>

Wb(tag, s, words, d) == [t |-> "wr", tag |-> tag, s |-> s, w |-> words, d |-> d, v |-> 0]

\* the write-back of the line that has to make room (or of an AMOed line)
Evict(c) ==
  /\ txn[c].ph = "evict"
  /\ LET q == txn[c].q
         s == q.a[2]
     IN IF q.op = "amo"
        THEN LET a == Amo(row[c][s], Ways, T(q.a[1])) IN
             /\ mq' = [mq EXCEPT ![c] = Append(@, Wb(q.a[1], s, IF Fault = "amofull" THEN WordIds ELSE a.evict,
                                                     data[c][s][a.way]))]
             /\ txn' = [txn EXCEPT ![c].ph = "amo"]
        ELSE LET a == Acc(c, q) IN
             /\ mq' = [mq EXCEPT ![c] = Append(@, Wb(a.vtag[1], s, IF Fault = "wbfull" THEN WordIds ELSE a.evict,
                                                     data[c][s][a.way]))]
             /\ txn' = [txn EXCEPT ![c].ph = "fetch"]
  /\ UNCHANGED <<ideal, mem, row, data, mr, unfl, stale, err>>

Fetch(c) ==
  /\ txn[c].ph = "fetch"
  /\ mq' = [mq EXCEPT ![c] = Append(@, [t |-> "rd", tag |-> txn[c].q.a[1], s |-> txn[c].q.a[2], w |-> {}, d |-> <<>>, v |-> 0])]
  /\ txn' = [txn EXCEPT ![c].ph = "wait"]
  /\ UNCHANGED <<ideal, mem, row, data, mr, unfl, stale, err>>

\* an acknowledgement of a write-back needs no action
Ack(c) ==
  /\ txn[c].ph = "wait"
  /\ mr[c] # <<>> /\ Head(mr[c]).t = "wr"
  /\ mr' = [mr EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<ideal, mem, row, data, txn, mq, unfl, stale, err>>

Refill(c) ==
  /\ txn[c].ph = "wait"
  /\ mr[c] # <<>> /\ Head(mr[c]).t = "rd"
  /\ LET q == txn[c].q
         a == Acc(c, q)
         s == q.a[2]
         keep == IF Fault = "nokeep" THEN {} ELSE a.keep
         l == [w \in WordIds |-> IF w \in keep THEN data[c][s][a.way][w] ELSE Head(mr[c]).d[w]]
         r == IF Fault = "lostghost" THEN [a.row EXCEPT !.w[a.way].d = Words(q)] ELSE a.row
     IN Finish(c, q, a.way, l, r)
  /\ mr' = [mr EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<mem, mq>>

----------------------------------------------------------------------------
(* AMO *)
StartAmo(c, q) ==
  /\ txn[c] = Idle
  /\ q.op = "amo"
  /\ MayAmo(q.a)
  /\ LET a == Amo(row[c][q.a[2]], Ways, T(q.a[1])) IN
     txn' = [txn EXCEPT ![c] = [ph |-> IF a.evict # {} /\ Fault # "amonowb" THEN "evict" ELSE "amo", q |-> q]]
  /\ UNCHANGED <<ideal, mem, row, data, mq, mr, unfl, stale, err>>

SendAmo(c) ==
  /\ txn[c].ph = "amo"
  /\ LET q == txn[c].q IN
     /\ mq' = [mq EXCEPT ![c] = Append(@, [t |-> "amo", tag |-> q.a[1], s |-> q.a[2], w |-> {q.a[3]}, d |-> <<>>, v |-> q.v])]
     /\ row' = IF Fault = "amokeep" THEN row ELSE [row EXCEPT ![c][q.a[2]] = Amo(@, Ways, T(q.a[1])).row]
  /\ txn' = [txn EXCEPT ![c].ph = "wait"]
  /\ UNCHANGED <<ideal, mem, data, mr, unfl, stale, err>>

AmoDone(c) ==
  /\ txn[c].ph = "wait"
  /\ mr[c] # <<>> /\ Head(mr[c]).t = "amo"
  /\ err' = IF Head(mr[c]).d # Head(mr[c]).i THEN err \cup {"amo"} ELSE err
  /\ mr' = [mr EXCEPT ![c] = Tail(@)]
  /\ txn' = [txn EXCEPT ![c] = Idle]
  /\ UNCHANGED <<ideal, mem, row, data, mq, unfl, stale>>

----------------------------------------------------------------------------
(* INV and FLUSH walk over all entries, one at a time *)
NEntries == Sets * Ways
EntrySet(n) == n \div Ways
EntryWay(n) == (n % Ways) + 1

StartInv(c) ==
  /\ txn[c] = Idle
  /\ txn' = [txn EXCEPT ![c] = [ph |-> "inv", n |-> 0, cov |-> {a \in stale[c] : \A o \in Caches \ {c} : a \notin unfl[o]}]]
  /\ UNCHANGED <<ideal, mem, row, data, mq, mr, unfl, stale, err>>
InvStep(c) ==
  /\ txn[c].ph = "inv"
  /\ LET n == txn[c].n
         s == EntrySet(n)
         k == EntryWay(n)
     IN /\ row' = [row EXCEPT ![c][s].w[k] = IF Fault = "invdrops" THEN EmptyLine ELSE [@ EXCEPT !.v = FALSE]]
        /\ IF n = NEntries - 1
           THEN /\ txn' = [txn EXCEPT ![c] = Idle]
                /\ stale' = [stale EXCEPT ![c] = @ \ txn[c].cov]
           ELSE /\ txn' = [txn EXCEPT ![c].n = n + 1]
                /\ UNCHANGED stale
  /\ UNCHANGED <<ideal, mem, data, mq, mr, unfl, err>>

StartFlush(c) ==
  /\ txn[c] = Idle
  /\ txn' = [txn EXCEPT ![c] = [ph |-> "flush", n |-> 0]]
  /\ UNCHANGED <<ideal, mem, row, data, mq, mr, unfl, stale, err>>
FlushNext(c, n) ==
  IF n = NEntries - 1
  THEN /\ txn' = [txn EXCEPT ![c] = Idle]
       /\ unfl' = [unfl EXCEPT ![c] = {}]
       /\ err' = IF (NC = 1 /\ mem # ideal) \/ (\E a \in unfl[c] : mem[a] # ideal[a])
                 THEN err \cup {"flush"} ELSE err
  ELSE /\ txn' = [txn EXCEPT ![c] = [ph |-> "flush", n |-> n + 1]]
       /\ UNCHANGED <<unfl, err>>
FlushStep(c) ==
  /\ txn[c].ph = "flush"
  /\ LET n == txn[c].n
         s == EntrySet(n)
         k == EntryWay(n)
         e == row[c][s].w[k]
     IN IF e.d # {} /\ ~(Fault = "flushvalid" /\ ~e.v)
        THEN /\ mq' = [mq EXCEPT ![c] = Append(@, Wb(e.t[1], s, IF Fault = "flushfull" THEN WordIds ELSE e.d, data[c][s][k]))]
             /\ txn' = [txn EXCEPT ![c].ph = "fwait"]
             /\ UNCHANGED <<unfl, err>>
        ELSE /\ FlushNext(c, n)
             /\ UNCHANGED mq
  /\ UNCHANGED <<ideal, mem, row, data, mr, stale>>
FlushAck(c) ==
  /\ txn[c].ph = "fwait"
  /\ mr[c] # <<>> \/ Fault = "flushearly"
  /\ LET n == txn[c].n
         s == EntrySet(n)
         k == EntryWay(n)
     IN /\ row' = IF Fault = "flushdirty" THEN row ELSE [row EXCEPT ![c][s].w[k].d = {}]
        /\ FlushNext(c, n)
  /\ mr' = [mr EXCEPT ![c] = IF @ = <<>> THEN @ ELSE Tail(@)]
  /\ UNCHANGED <<ideal, mem, data, mq, stale>>

----------------------------------------------------------------------------
(* memory serves the oldest request of any cache *)
Memory(c) ==
  /\ mq[c] # <<>>
  /\ LET q == Head(mq[c]) IN
     /\ mq' = [mq EXCEPT ![c] = Tail(@)]
     /\ CASE q.t = "wr" ->
               /\ mem' = [a \in Addrs |-> IF a[1] = q.tag /\ a[2] = q.s /\ a[3] \in q.w THEN q.d[a[3]] ELSE mem[a]]
               /\ mr' = [mr EXCEPT ![c] = Append(@, [t |-> "wr", d |-> 0, i |-> 0])]
               /\ UNCHANGED ideal
          [] q.t = "rd" ->
               /\ mr' = [mr EXCEPT ![c] = Append(@, [t |-> "rd", d |-> Line(mem, q.tag, q.s), i |-> 0])]
               /\ UNCHANGED <<mem, ideal>>
          [] q.t = "amo" ->
               LET a == <<q.tag, q.s, CHOOSE w \in q.w : TRUE>> IN
               /\ mem' = [mem EXCEPT ![a] = (@ + q.v) % NVals]
               /\ ideal' = [ideal EXCEPT ![a] = (@ + q.v) % NVals]
               /\ mr' = [mr EXCEPT ![c] = Append(@, [t |-> "amo", d |-> mem[a], i |-> ideal[a]])]
  /\ UNCHANGED <<row, data, txn, unfl, stale, err>>

Reqs == [op : {"read"}, a : Addrs, v : {0}] \cup [op : {"write"}, a : Addrs, v : Vals] \cup [op : {"amo"}, a : Addrs, v : {1}]

Next == \E c \in Caches :
  \/ \E q \in Reqs : Start(c, q) \/ StartAmo(c, q)
  \/ StartInv(c) \/ StartFlush(c)
  \/ Evict(c) \/ Fetch(c) \/ Ack(c) \/ Refill(c)
  \/ SendAmo(c) \/ AmoDone(c) \/ InvStep(c) \/ FlushStep(c) \/ FlushAck(c)
  \/ Memory(c)

Progress(c) == Evict(c) \/ Fetch(c) \/ Ack(c) \/ Refill(c) \/ SendAmo(c) \/ AmoDone(c)
               \/ InvStep(c) \/ FlushStep(c) \/ FlushAck(c) \/ Memory(c)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A c \in Caches : WF_vars(Progress(c))

----------------------------------------------------------------------------
(* properties *)
\* every response so far carried the right data, every FLUSH left memory up to date
ResponsesOK == err = {}
RowsOK == \A c \in Caches : \A s \in SetIds : RowOK(row[c][s], Ways)
\* where the current value of a word is, as seen by cache c
HeldDirty(c, a) == {k \in WayIds : row[c][a[2]].w[k].t = T(a[1]) /\ a[3] \in row[c][a[2]].w[k].d}
HeldClean(c, a) == {k \in WayIds : row[c][a[2]].w[k].t = T(a[1]) /\ row[c][a[2]].w[k].v /\ a[3] \notin row[c][a[2]].w[k].d}
Quiet == \A c \in Caches : txn[c] = Idle
\* nothing is lost: a word that memory does not hold is dirty in a cache, with the right value
NothingLost == Quiet => \A a \in Addrs :
  /\ \A c \in Caches : \A k \in HeldDirty(c, a) : data[c][a[2]][k][a[3]] = ideal[a]
  /\ mem[a] # ideal[a] => \E c \in Caches : HeldDirty(c, a) # {}
\* clean copies equal memory (unless another cache owns the word)
CleanIsMemory == Quiet => \A c \in Caches : \A a \in Addrs : a \notin stale[c] /\ ~(NC > 1 /\ a[3] \in AmoWords) =>
  \A k \in HeldClean(c, a) : data[c][a[2]][k][a[3]] = mem[a]
\* two caches never both hold a word dirty
OneOwner == \A a \in Addrs : \A c, o \in Caches : HeldDirty(c, a) # {} /\ HeldDirty(o, a) # {} => c = o
\* between transactions nothing is under way
QuietMeansQuiet == \A c \in Caches : txn[c] = Idle => mq[c] = <<>> /\ mr[c] = <<>>
\* a FLUSH leaves nothing modified
FlushedClean == \A c \in Caches : txn[c].ph \in {"flush", "fwait"} =>
  \A n \in 0..(txn[c].n - 1) : row[c][EntrySet(n)].w[EntryWay(n)].d = {}
\* the cache never has a READ or AMO outstanding together with another one
Blocking == \A c \in Caches : LET n(q) == Len(SelectSeq(q, LAMBDA x : x.t # "wr")) IN n(mq[c]) + n(mr[c]) <= 1
\* every transaction ends
Completes == \A c \in Caches : txn[c] # Idle ~> txn[c] = Idle

Sym == Permutations(Tags)
==============================================================================
