------------------------------ MODULE CacheTrace ------------------------------
(***************************************************************************)
(* Trace checker: interface-level behaviour of one or more write-back      *)
(* caches over one memory.  The state is a deterministic function of the   *)
(* events seen so far; every event is one named action, taken on every     *)
(* trace (total verdicts), and whatever an event violates is recorded in   *)
(* `bad' as the name of the failing clause.                                *)
(*                                                                         *)
(* Per cache four INDEPENDENT monitors run over the same events:           *)
(*   pend   the responses owed, in order          (protocol, read data)    *)
(*   rows   CacheCore's policy, driven by accepted requests only           *)
(*          (hit flag; xq = the memory requests the policy calls for)      *)
(*   cw     words this cache was told to modify and has not yet written    *)
(*          back: word -> versions <<[n |-> request number, d |-> word]>>  *)
(*          (driven by accepted writes and observed memory writes)         *)
(*   out    memory requests not yet answered                               *)
(* and two global maps: ideal (sequential memory) and mem (what memory     *)
(* holds after the observed memory requests).                              *)
(***************************************************************************)
EXTENDS CacheCore, Words, TLC, Json, IOUtils

READ == 0   WRITE == 1   INIT == 2   INV == 14   FLUSH == 15
IsAmo(ty) == ty \in 3..11

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, i, m, bad
vars == <<tr, i, m, bad>>

T      == Traces[tr]
cfg    == T.cfg
ev     == T.ev[i]
Caches == 0..(cfg.nc - 1)

C(ok, name) == IF ok THEN {} ELSE {name}

----------------------------------------------------------------------------
(* address decoding *)
LineOf(ad) == <<ad[1], ad[2] - (ad[2] % cfg.lb)>>
SetOf(ad)  == (ad[2] \div cfg.lb) % cfg.sets
TagOf(ad)  == <<ad[1], ad[2] \div (cfg.lb * cfg.sets)>>
LineAddr(tag, set) == <<tag[1], tag[2] * cfg.lb * cfg.sets + set * cfg.lb>>
WordsPerLine == cfg.lb \div 4
WIdx(w)       == w[2] % WordsPerLine                       \* word key -> index in line
WKey(line, k) == <<line[1], (line[2] \div 4) + k>>         \* and back

\* access sizes.  len 0 is the full data width.  len 3 on a 32-bit port is
\* the documented double-word store: the word is zero-extended to 64 bits.
DoubleWord(e) == e.ty = WRITE /\ e.len = 3 /\ cfg.db = 4 /\ cfg.lb >= 8
Size(e)       == IF DoubleWord(e) THEN 8 ELSE IF e.len = 0 THEN cfg.db ELSE e.len
StoreBytes(e) == IF DoubleWord(e) THEN e.dat \o Zeros(4) ELSE e.dat

----------------------------------------------------------------------------
NewCache == [ rows |-> <<>>, pend |-> <<>>, xq |-> <<>>, out |-> <<>>, cw |-> <<>>,
              div |-> FALSE, n |-> 0, prev |-> "none",
              mpc |-> 0,      \* cycle of the last memory response
              fw  |-> 0,      \* cycles memory took for write-backs so far
              fd  |-> 0,      \* their number
              rc  |-> 0 ]     \* cycle in which reset ended
Init == /\ tr \in DOMAIN Traces
        /\ i = 1
        /\ m = [ c |-> [k \in 0..(Traces[tr].cfg.nc - 1) |-> NewCache],
                 ideal |-> <<>>, mem |-> <<>>, sc |-> {} ]
        /\ bad = {}

\* clauses that fail at this event; the first failure of each is kept
Failed(S) == bad \cup {<<x, i>> : x \in {y \in S : \A b \in bad : b[1] # y}}

RowAt(k, s) == IF s \in DOMAIN k.rows THEN k.rows[s] ELSE EmptyRow(cfg.ways)
SetRow(k, s, r) == [x \in DOMAIN k.rows \cup {s} |-> IF x = s THEN r ELSE k.rows[x]]

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

(***************************************************************************)
(* Coverage (no clause depends on it): the situation a request meets, by   *)
(* the policy, and the kind of request right before it.                    *)
(***************************************************************************)
LineKind(x) == IF x.v THEN IF x.d # {} THEN "dirty" ELSE "clean"
               ELSE IF x.d # {} THEN "ghost" ELSE IF x.t = NoTag THEN "empty" ELSE "invalid"
Situation(k, e) ==
  LET row == RowAt(k, SetOf(e.ad))
      tag == TagOf(e.ad)
      ws  == IF e.ty = WRITE THEN {WIdx(w) : w \in Touched(e.ad, Size(e))} ELSE {}
      op  == IF e.ty = READ THEN "read " ELSE "write "
      H   == Holds(row, tag)
      all == UNION {{LineKind(k.rows[x].w[y]) : y \in DOMAIN k.rows[x].w} : x \in DOMAIN k.rows}
      has == (IF "dirty" \in all THEN "dirty" ELSE IF "clean" \in all THEN "clean" ELSE "nothing valid")
             \o (IF "ghost" \in all THEN " and ghost" ELSE "")
  IN IF e.ty \in {READ, WRITE} THEN
       IF Hits(row, tag) # {} THEN
         LET x == row.w[CHOOSE y \in H : TRUE] IN
         op \o "hit " \o LineKind(x)
            \o (IF ws = {} \/ x.d = {} THEN "" ELSE IF ws \subseteq x.d THEN ", marked" ELSE IF ws \cap x.d = {} THEN ", unmarked" ELSE ", half marked")
       ELSE IF H # {} THEN
         LET x == row.w[CHOOSE y \in H : TRUE] IN
         op \o "refill ghost" \o (IF ws = {} THEN "" ELSE IF ws \subseteq x.d THEN ", marked" ELSE IF ws \cap x.d = {} THEN ", unmarked" ELSE ", half marked")
       ELSE op \o "miss, victim " \o LineKind(row.w[row.lru])
              \o (IF \E y \in DOMAIN row.w : y # row.lru /\ row.w[y].t = tag THEN ", own tag invalid in the other way" ELSE "")
     ELSE IF IsAmo(e.ty) THEN
       "amo " \o (IF H # {} THEN LineKind(row.w[CHOOSE y \in H : TRUE])
                  ELSE IF \E y \in DOMAIN row.w : row.w[y].t = tag THEN "invalid" ELSE "absent")
     ELSE IF e.ty = INV THEN "inv of " \o has ELSE "flush of " \o has

(***************************************************************************)
(* a request is accepted                                                   *)
(***************************************************************************)
XWb(line, mask, g) == [kind |-> "wb",  ad |-> line, mask |-> mask, grp |-> g]
XRd(line, g)       == [kind |-> "rd",  ad |-> line, mask |-> {},   grp |-> g]
XAmo(e, g)         == [kind |-> "amo", ad |-> e.ad, mask |-> {},   grp |-> g,
                       ty |-> e.ty, dat |-> e.dat, len |-> IF cfg.db = 4 THEN 4 ELSE e.len]
XFl(line, mask, g) == [kind |-> "fl",  ad |-> line, mask |-> mask, grp |-> g]

\* everything the policy says about request e in cache state k
Policy(k, e) ==
  LET s   == SetOf(e.ad)
      tag == TagOf(e.ad)
      g   == k.n + 1
      row == RowAt(k, s)
  IN
  IF e.ty \in {READ, WRITE} THEN
    LET ws == IF e.ty = READ THEN {} ELSE {WIdx(w) : w \in Touched(e.ad, Size(e))}
        a  == Access(row, cfg.ways, tag, ws)
    IN [ rows |-> SetRow(k, s, a.row), te |-> IF a.hit THEN 1 ELSE 0,
         xs |-> (IF a.evict # {} THEN <<XWb(LineAddr(a.vtag, s), a.evict, g)>> ELSE <<>>)
                \o (IF a.fill THEN <<XRd(LineOf(e.ad), g)>> ELSE <<>>),
         cls |-> IF ~a.hit THEN "miss"
                 ELSE IF ws \subseteq row.w[a.way].d THEN "hit" ELSE "hitclean" ]
  ELSE IF IsAmo(e.ty) THEN
    LET a == Amo(row, cfg.ways, tag)
    IN [ rows |-> SetRow(k, s, a.row), te |-> 0,
         xs |-> (IF a.evict # {} THEN <<XWb(LineOf(e.ad), a.evict, g)>> ELSE <<>>) \o <<XAmo(e, g)>>,
         cls |-> "amo" ]
  ELSE IF e.ty = INV THEN
    [ rows |-> [x \in DOMAIN k.rows |-> InvRow(k.rows[x])], te |-> 0, xs |-> <<>>, cls |-> "inv" ]
  ELSE
    [ rows |-> [x \in DOMAIN k.rows |-> FlushRow(k.rows[x])], te |-> 0,
      xs |-> SetSeq(UNION {{XFl(LineAddr(k.rows[x].w[y].t, x), k.rows[x].w[y].d, g)
                              : y \in DirtyWays(k.rows[x])} : x \in DOMAIN k.rows}),
      cls |-> "flush" ]

\* what the response must carry (AMOs of several caches on one word are
\* ordered by memory, so there the old value is fixed when memory sees it)
RespData(e) ==
  IF e.ty = READ THEN Load(m.ideal, e.ad, Size(e), cfg.db)
  ELSE IF IsAmo(e.ty) THEN
         IF cfg.multi = 1 THEN <<>>
         ELSE Word(m.ideal, WordKey(e.ad[1], e.ad[2])) \o Zeros(cfg.db - 4)
  ELSE Zeros(cfg.db)

NewIdeal(e) ==
  IF e.ty = WRITE THEN Store(m.ideal, e.ad, Size(e), StoreBytes(e))
  ELSE IF IsAmo(e.ty) /\ cfg.multi = 0
    THEN LET w == WordKey(e.ad[1], e.ad[2]) IN
         Overlay(m.ideal, {w}, [x \in {w} |-> AmoOp(e.ty, Word(m.ideal, w), SubSeq(e.dat, 1, 4))])
  ELSE m.ideal

\* one more version of word w; versions overwritten by a request that has
\* already been answered can no longer be seen by anybody
Oldest(k) == IF k.pend = <<>> THEN k.n + 1 ELSE Head(k.pend).n
NewVersion(k, w, d) ==
  LET vs == IF w \in DOMAIN k.cw THEN k.cw[w] ELSE <<>>
      L  == Len(vs)
      lo == IF L <= 1 THEN 1
            ELSE LET K == {j \in 1..(L - 1) : vs[j + 1].n >= Oldest(k)} \cup {L}
                 IN CHOOSE j \in K : \A x \in K : j <= x
  IN SubSeq(vs, lo, L) \o <<[n |-> k.n + 1, d |-> d]>>

NLines == cfg.ways * cfg.sets

AcceptBad(k, e) ==
  \* a functional model's record of the call: <<as made, as recorded>>
  C("rq" \in DOMAIN e => e.rq[1] = e.rq[2], "rec.request") \cup
  \* a waiting request is taken two cycles after the answer to a miss has
  \* been latched (the refill and the replay go first) ...
  C(cfg.nostall = 1 /\ k.prev \in {"miss", "amo"} /\ e.w > 0 => e.c <= k.mpc + 3, "time.next") \cup
  \* ... and once the tag array has been cleared, one line a cycle
  C(cfg.nostall = 1 /\ k.n = 0 /\ e.w > 0 => e.c <= k.rc + NLines + 1, "time.reset") \cup
  \* full-rate pipeline: with nothing stalling it, the cache takes a request
  \* every cycle as long as requests hit; one bubble after a store that
  \* dirties a clean word
  C(cfg.nostall = 1 /\ k.prev \in {"hit", "hitclean"}
      => e.w <= (IF k.prev = "hitclean" THEN 1 ELSE 0), "time.bubble")

Accept ==
  /\ ev.k = "acc"
  /\ LET k == m.c[ev.cid]
         p == Policy(k, ev)
         ws == IF ev.ty = WRITE THEN Touched(ev.ad, Size(ev)) ELSE {}
         id2 == NewIdeal(ev)
         r == [ n |-> k.n + 1, iss |-> FALSE, ty |-> ev.ty, op |-> ev.op, len |-> ev.len, te |-> p.te, c |-> ev.c,
                chk |-> ev.chk, dat |-> RespData(ev), cls |-> p.cls, nx |-> Len(p.xs), fw |-> k.fw, fd |-> k.fd ]
     IN m' = [m EXCEPT
           !.c[ev.cid] = [k EXCEPT !.rows = p.rows,
                                   !.pend = Append(@, r),
                                   !.xq   = IF k.div THEN @ ELSE @ \o p.xs,
                                   !.cw   = Overlay(@, ws, [w \in ws |-> NewVersion(k, w, Word(id2, w))]),
                                   !.n    = @ + 1,
                                   !.prev = p.cls],
           !.ideal = id2,
           !.sc = @ \cup {Situation(k, ev), k.prev \o ", then " \o p.cls \o (IF ev.w > 0 THEN " waiting" ELSE "")}]
  /\ bad' = Failed(AcceptBad(m.c[ev.cid], ev))

(***************************************************************************)
(* a memory request                                                        *)
(***************************************************************************)
\* index in xq of the expected request this one should be matched with: the
\* head, except that the write-backs of one FLUSH may come in any order
Match(k, e) ==
  LET h == Head(k.xq)
      G == {j \in DOMAIN k.xq : k.xq[j].kind = "fl" /\ k.xq[j].grp = h.grp /\ k.xq[j].ad = e.ad}
  IN IF h.kind = "fl" /\ e.ty = WRITE /\ G # {} THEN CHOOSE j \in G : TRUE ELSE 1

Mask(e) == {x \in 0..(WordsPerLine - 1) : e.mask[x + 1] = 1}

\* traffic vs. policy -> names of failing clauses
TrafficBad(k, e) ==
  IF k.div THEN {}
  ELSE IF k.xq = <<>> THEN
    {IF e.ty = READ THEN "fetch.extra" ELSE IF e.ty = WRITE THEN "wb.extra" ELSE "amo.extra"}
  ELSE LET x == k.xq[Match(k, e)] IN
    CASE x.kind = "wb" ->
           IF e.ty # WRITE THEN {"wb.missing"}
           ELSE C(e.ad = x.ad, "wb.addr") \cup
                (IF e.ad # x.ad THEN {} ELSE C(Mask(e) \subseteq x.mask, "wb.mask_extra")
                                          \cup C(x.mask \subseteq Mask(e), "wb.mask_missing"))
      [] x.kind = "rd" ->
           IF e.ty = WRITE THEN {"wb.extra"}
           ELSE IF e.ty # READ THEN {"amo.extra"}
           ELSE C(e.ad = x.ad, "fetch.addr")
      [] x.kind = "amo" ->
           IF e.ty = WRITE THEN {"wb.extra"}
           ELSE IF e.ty = READ THEN {"fetch.extra"}
           ELSE C(e.ty = x.ty, "amo.type") \cup C(e.ad = x.ad, "amo.addr")
                \cup C(e.len = x.len, "amo.len") \cup C(SubSeq(e.dat, 1, 4) = SubSeq(x.dat, 1, 4), "amo.operand")
      [] x.kind = "fl" ->
           IF e.ty # WRITE THEN {"flush.bogus"}
           ELSE C(e.ad = x.ad, "flush.line") \cup
                (IF e.ad # x.ad THEN {} ELSE C(Mask(e) \subseteq x.mask, "flush.mask_extra")
                                          \cup C(x.mask \subseteq Mask(e), "flush.mask_missing"))

\* clauses after which expected and observed traffic no longer line up
Derail == {"fetch.extra", "wb.extra", "amo.extra", "wb.missing", "wb.addr", "fetch.addr",
           "amo.type", "amo.addr", "flush.bogus", "flush.line"}

MaskKeys(e) == {WKey(LineOf(e.ad), x) : x \in Mask(e)}
WordIn(e, w) == SubSeq(e.dat, 4 * WIdx(w) + 1, 4 * WIdx(w) + 4)

\* the version of word w that memory write e carries: the newest one older
\* than the request e is on behalf of (known from the policy while traffic
\* and policy line up, otherwise any version with that data).  0 = none.
Versions(k, w) == IF w \in DOMAIN k.cw THEN k.cw[w] ELSE <<>>
Owner(k, e) == IF k.div \/ k.xq = <<>> THEN 0 ELSE k.xq[Match(k, e)].grp
Carried(k, e, w) ==
  LET vs == Versions(k, w)
      g  == Owner(k, e)
      S  == IF g # 0 THEN {j \in DOMAIN vs : vs[j].n < g}
            ELSE {j \in DOMAIN vs : vs[j].d = WordIn(e, w)}
  IN IF S # {} THEN CHOOSE j \in S : \A x \in S : x <= j
     ELSE IF g = 0 /\ vs # <<>> THEN 1 ELSE 0
\* the AMO a memory request carries: the oldest one not yet issued
AmoIdx(k) == LET P == {x \in DOMAIN k.pend : IsAmo(k.pend[x].ty) /\ ~k.pend[x].iss}
             IN IF P = {} THEN 0 ELSE CHOOSE x \in P : \A y \in P : x <= y

\* unstalled, the requests of a miss leave two and three cycles after its
\* acceptance (the write-back, if any, first)
TimeBad(k, e) ==
  IF cfg.nostall = 0 \/ k.div \/ k.xq = <<>> \/ k.pend = <<>> THEN {}
  ELSE LET x == Head(k.xq)
           p == k.pend[Len(k.pend)]
       IN C(x.kind # "fl" /\ p.n = x.grp
              => e.c <= p.c + (IF x.kind = "wb" THEN 2 ELSE 1 + p.nx), "time.mreq")

\* a line read or AMO identifies itself to memory as its request did
OpaqueBad(k, e) ==
  IF k.div \/ k.xq = <<>> \/ e.ty = WRITE THEN {}
  ELSE LET x == Head(k.xq)
           P == {j \in DOMAIN k.pend : k.pend[j].n = x.grp}
       IN C(\A j \in P : e.op = k.pend[j].op, "form.opaque")

\* clauses that need no policy
FormBad(k, e) ==
  C(e.r = 1, "flow.mreq")
  \cup (IF e.ty \in {READ, WRITE}
        THEN C(e.ad[2] % cfg.lb = 0, "form.align") \cup C(e.len = 0, "form.len")
        ELSE C(IsAmo(e.ty), "form.type"))
  \cup (IF e.ty # WRITE THEN C(\A x \in DOMAIN k.out : k.out[x].ty = WRITE, "form.blocking") ELSE {})
  \cup (IF e.ty = WRITE
        THEN C(\A w \in MaskKeys(e) : Carried(k, e, w) # 0, "wb.clean_word")
             \cup C(\A w \in MaskKeys(e) : LET j == Carried(k, e, w) IN
                        j # 0 => WordIn(e, w) = k.cw[w][j].d, "wb.data")
        ELSE {})
  \cup (IF IsAmo(e.ty)
        THEN LET vs == Versions(k, WordKey(e.ad[1], e.ad[2])) IN
             C(AmoIdx(k) # 0 => \A j \in DOMAIN vs : vs[j].n > k.pend[AmoIdx(k)].n, "amo.stale")
        ELSE {})

RemoveAt(s, j) == [x \in 1..(Len(s) - 1) |-> IF x < j THEN s[x] ELSE s[x + 1]]

MemReq ==
  /\ ev.k = "mq"
  /\ LET k  == m.c[ev.cid]
         tb == TrafficBad(k, ev)
         ws == IF ev.ty = WRITE THEN MaskKeys(ev) ELSE {}
         aw == WordKey(ev.ad[1], ev.ad[2])
         nv == IF IsAmo(ev.ty) THEN AmoOp(ev.ty, Word(m.mem, aw), SubSeq(ev.dat, 1, 4)) ELSE <<>>
         mem2 == IF ev.r = 0 THEN m.mem
                 ELSE IF ev.ty = WRITE THEN Overlay(m.mem, ws, [w \in ws |-> WordIn(ev, w)])
                 ELSE IF IsAmo(ev.ty) THEN Overlay(m.mem, {aw}, [w \in {aw} |-> nv])
                 ELSE m.mem
         o == [ ty |-> ev.ty, c |-> ev.c,
                dat |-> IF ev.ty = READ THEN Load(m.mem, LineOf(ev.ad), cfg.lb, cfg.lb)
                        ELSE IF IsAmo(ev.ty) THEN Word(m.mem, aw) ELSE <<>> ]
         ai == IF IsAmo(ev.ty) THEN AmoIdx(k) ELSE 0
         p2 == IF ai = 0 THEN k.pend
               ELSE [k.pend EXCEPT ![ai].iss = TRUE,
                                   ![ai].dat = IF cfg.multi = 1 THEN Word(m.mem, aw) \o Zeros(cfg.db - 4) ELSE @]
         \* versions still owed after this write
         cw2 == LET left == [w \in ws |-> SubSeq(Versions(k, w), Carried(k, ev, w) + 1, Len(Versions(k, w)))]
                    gone == {w \in ws : left[w] = <<>>}
                IN Drop(Overlay(k.cw, ws, left), gone)
     IN /\ m' = [m EXCEPT
              !.c[ev.cid] = [k EXCEPT
                  !.xq  = IF k.div \/ @ = <<>> THEN @ ELSE RemoveAt(@, Match(k, ev)),
                  !.div = @ \/ (tb \cap Derail # {}),
                  !.cw  = cw2,
                  !.pend = p2,
                  !.fd  = IF ev.ty = WRITE THEN @ + 1 ELSE @,
                  !.out = IF ev.r = 1 THEN Append(@, o) ELSE @],
              !.mem = mem2,
              !.ideal = IF IsAmo(ev.ty) /\ cfg.multi = 1
                          THEN Overlay(@, {aw}, [w \in {aw} |-> nv]) ELSE @]
        /\ bad' = Failed(tb \cup FormBad(k, ev) \cup TimeBad(k, ev) \cup OpaqueBad(k, ev))

(***************************************************************************)
(* memory answers (the environment: always the oldest unanswered request)  *)
(***************************************************************************)
MemResp ==
  /\ ev.k = "mp"
  /\ LET k == m.c[ev.cid]
     IN IF k.out = <<>> THEN m' = m /\ bad' = Failed({"env.memory"})
        ELSE LET o == Head(k.out) IN
             /\ m' = [m EXCEPT !.c[ev.cid] = [k EXCEPT !.out = Tail(@), !.mpc = ev.c,
                                                       !.fw = IF o.ty = WRITE THEN @ + ev.c - o.c ELSE @]]
             /\ bad' = Failed(C(o.ty = ev.ty /\ (o.ty # WRITE => o.dat = ev.dat), "env.memory"))

(***************************************************************************)
(* the cache responds                                                      *)
(***************************************************************************)
RespBad(k, e) ==
  C(e.r = 1, "flow.resp") \cup
  (IF k.pend = <<>> THEN {"proto.unsolicited"}
   ELSE LET p == Head(k.pend) IN
     C(e.ty = p.ty, "proto.type") \cup C(e.op = p.op, "proto.opaque") \cup C(e.len = p.len, "proto.len")
     \cup (IF p.chk = 0 THEN {}
           ELSE IF p.ty = READ THEN C(e.dat = p.dat, "data.read")
           ELSE IF IsAmo(p.ty) THEN C(e.dat = p.dat, "data.amo")
           ELSE C(IsZero(e.dat), "proto.zero"))
     \cup (IF e.te = p.te THEN {}
           ELSE IF p.ty \in {READ, WRITE} THEN {IF p.te = 1 THEN "hit.false_miss" ELSE "hit.false_hit"}
           ELSE {"hit.nonrw"})
     \cup (IF p.ty = FLUSH
           THEN C(\A w \in DOMAIN k.cw : \A j \in DOMAIN k.cw[w] : k.cw[w][j].n > p.n, "flush.left_dirty")
                \cup C(k.out = <<>>, "flush.early")
                \cup C(cfg.multi = 1 \/ k.n > p.n \/ \A w \in DOMAIN m.ideal : Word(m.mem, w) = m.ideal[w],
                       "flush.stale_mem")
           ELSE {})
     \cup (IF cfg.nostall = 1 /\ p.cls \in {"hit", "hitclean"} THEN C(e.c - p.c = 2, "time.hit") ELSE {})
     \cup (IF cfg.nostall = 0 THEN {} ELSE
           \* refill, then replay: four cycles from the memory's answer
           CASE p.cls \in {"miss", "amo"} -> C(e.c <= k.mpc + 4, "time.miss")
             \* one line a cycle
             [] p.cls = "inv" -> C(e.c <= p.c + NLines + 3, "time.inv")
             \* one cycle for a clean line; three, and the memory's, for a dirty one
             [] p.cls = "flush" -> C(e.c <= p.c + NLines + 3 + 3 * (k.fd - p.fd) + (k.fw - p.fw), "time.flush")
             [] OTHER -> {}))

Resp ==
  /\ ev.k = "rs"
  /\ LET k == m.c[ev.cid] IN
     /\ m' = [m EXCEPT !.c[ev.cid].pend = IF @ = <<>> THEN @ ELSE Tail(@)]
     /\ bad' = Failed(RespBad(k, ev))

(***************************************************************************)
(* reset: the cache is empty again; what memory holds is the truth         *)
(***************************************************************************)
Reset ==
  /\ ev.k = "rst"
  /\ m' = [m EXCEPT !.c[ev.cid] = [NewCache EXCEPT !.rc = ev.c], !.ideal = m.mem,
                    !.sc = @ \cup {LET k == m.c[ev.cid] IN
                                   "reset " \o (IF k.pend # <<>> THEN "in " \o Head(k.pend).cls ELSE "when idle")
                                   \o (IF k.out # <<>> THEN ", memory busy" ELSE "")
                                   \o (IF DOMAIN k.cw # {} THEN ", words modified" ELSE "")}]
  /\ bad' = bad

(***************************************************************************)
(* end of the trace: the driver has made everything ready and memory has   *)
(* answered everything, for long enough that nothing may be left over      *)
(***************************************************************************)
EndBad ==
  UNION {LET k == m.c[x] IN
         C(k.pend = <<>>, "live.response") \cup C(ev.why # "hang", "live.hang")
         \cup C(k.div \/ k.xq = <<>>, "traffic.missing") : x \in Caches}
End ==
  /\ ev.k = "end"
  /\ bad' = Failed(EndBad)
  /\ m' = m

Verdict == PrintT(<<"SITUATIONS", m'.sc>>) /\ PrintT(<<"VERDICT", T.id, bad'>>)

Next == /\ i <= Len(T.ev)
        /\ Accept \/ MemReq \/ MemResp \/ Resp \/ Reset \/ End
        /\ i' = i + 1
        /\ tr' = tr
        /\ IF i = Len(T.ev) THEN Verdict ELSE TRUE

Spec == Init /\ [][Next]_vars

\* the rows stay structurally sound on every observed behaviour
RowsOK == \A x \in DOMAIN m.c : \A s \in DOMAIN m.c[x].rows : RowOK(m.c[x].rows[s], cfg.ways)

\* one state per (trace, position): the rest is a function of these
View == <<tr, i>>
==============================================================================
