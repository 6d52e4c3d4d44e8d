------------------------------ MODULE CachePipe ------------------------------
(***************************************************************************)
(* Cycle-level model of the blocking cache: the M0/M1/M2 pipeline, the M0  *)
(* state machine, the one-entry MSHR, the SRAMs with their registered read *)
(* ports, the stall engines that hold SRAM outputs while M2 is stalled,    *)
(* and the environment: a processor that offers requests when it likes, a  *)
(* response port and a memory request port that may refuse in any cycle, a *)
(* memory that answers in order after any number of cycles >= 1.           *)
(*                                                                         *)
(* One step is one clock cycle.  The policy (CacheCore) runs beside it as  *)
(* the specification: when a request is accepted, the response and the     *)
(* memory requests it must cause are appended to xr / xm; whatever the     *)
(* pipeline emits is compared with them.  So checking this module shows    *)
(* that the pipeline implements the policy under EVERY schedule of the     *)
(* environment, within the constants.                                      *)
(*                                                                         *)
(* Its transitions are also the cycle-by-cycle schedules (request, refusal,*)
(* answer) that harness/pipe.py replays on the real cache.                 *)
(***************************************************************************)
EXTENDS CacheCore, Integers, TLC, TLCExt, Json

CONSTANTS Ways, Sets, Tags, NWords, NVals, Ops, UseSets, MaxMem, Fault, Emit

VARIABLES
  fsm, cnt,              \* M0 state machine and its line counter
  mv, mty, mdat,         \* M0: registered memory response
  mshr,                  \* [n, ty, tag, s, w, v, repl, ahit, dm]
  t1, r1, way1, upd1, fix1, dm1,      \* M1 pipeline registers
  tagA, trd, tsr, was, hsr, rep,      \* tag SRAMs, read port, stall registers, replacement bits
  t2, r2, ev2, hit2, fl2, wm2,        \* M2 pipeline registers
  dat, drd, dsr,                      \* data SRAM, read port, stall register
  mq, mem,                            \* memory: unanswered requests, contents
  ideal, prow, xr, xm,                \* the specification
  resp, err
regs == <<fsm, cnt, mv, mty, mdat, mshr, t1, r1, way1, upd1, fix1, dm1, tagA, trd, tsr, was, hsr, rep,
          t2, r2, ev2, hit2, fl2, wm2, dat, drd, dsr>>
spec == <<ideal, prow, xr, xm>>
vars == <<regs, mq, mem, spec, resp, err>>

WaysS == 1..Ways
SetS  == 0..(Sets - 1)
WordS == 1..NWords
N     == Ways * Sets
Addrs == Tags \X SetS \X WordS

NoLine  == [w \in WordS |-> 0]
ZeroTag == [t |-> NoTag, v |-> FALSE, d |-> {}]
NoReq   == [ty |-> "none", tag |-> NoTag, s |-> 0, w |-> 1, ln |-> NoLine]
NoMshr  == [n |-> 0, ty |-> "none", tag |-> NoTag, s |-> 0, w |-> 1, v |-> 0, repl |-> 1, ahit |-> FALSE, dm |-> {}]

Reqs == ({"read", "write", "amo"} \cap Ops) \X Tags \X UseSets \X WordS
        \cup ({"inv", "flush"} \cap Ops) \X {0} \X {0} \X {1}
NoRq == <<>>

Max(a, b) == IF a > b THEN a ELSE b

Init ==
  /\ fsm = "INIT" /\ cnt = N - 1
  /\ mv = FALSE /\ mty = "none" /\ mdat = NoLine
  /\ mshr = NoMshr
  /\ t1 = "none" /\ r1 = NoReq /\ way1 = 1 /\ upd1 = 1 /\ fix1 = 0 /\ dm1 = {}
  /\ tagA = [k \in WaysS |-> [s \in SetS |-> [t |-> <<1>>, v |-> TRUE, d |-> WordS]]]   \* power-up contents
  /\ trd = [k \in WaysS |-> ZeroTag] /\ tsr = [k \in WaysS |-> ZeroTag] /\ was = FALSE
  /\ hsr = [hit |-> FALSE, way |-> 1]
  /\ rep = [s \in SetS |-> 1]
  /\ t2 = "none" /\ r2 = NoReq /\ ev2 = FALSE /\ hit2 = FALSE /\ fl2 = FALSE /\ wm2 = {}
  /\ dat = [k \in WaysS |-> [s \in SetS |-> NoLine]] /\ drd = NoLine /\ dsr = NoLine
  /\ mq = <<>>
  /\ mem = [a \in Addrs |-> 0] /\ ideal = [a \in Addrs |-> 0]
  /\ prow = [s \in SetS |-> EmptyRow(Ways)]
  /\ xr = <<>> /\ xm = <<>>
  /\ resp = FALSE /\ err = {}

LineOf(m, tag, s) == [w \in WordS |-> m[<<tag[1], s, w>>]]

----------------------------------------------------------------------------
(* M2: what goes out this cycle; ok = both output ports are ready *)
Quiet2 == {"none", "init", "inv0", "invw", "clean", "fl0", "flwait", "flw"}
Stall2(ok) == t2 \notin Quiet2 /\ ~ok /\ (Fault = "nostallhit" => ~(t2 = "read" /\ hit2))
DataOut == IF was /\ Fault # "nohold" THEN dsr ELSE drd                       \* data stall engine

NoOut == [k |-> "no"]
MemOut(ok) ==
  IF t2 \in Quiet2 \/ ~ok THEN NoOut
  ELSE IF t2 = "flr" THEN (IF fl2 THEN [k |-> "wb", tag |-> r2.tag, s |-> r2.s, m |-> wm2, ln |-> DataOut] ELSE NoOut)
  ELSE IF ev2 THEN [k |-> "wb", tag |-> r2.tag, s |-> r2.s, m |-> wm2, ln |-> DataOut]
  ELSE IF t2 = "amo" THEN [k |-> "amo", tag |-> r2.tag, s |-> r2.s, w |-> r2.w, v |-> r2.ln[1]]
  ELSE IF t2 \in {"read", "write"} /\ ~hit2 THEN [k |-> "rd", tag |-> r2.tag, s |-> r2.s]
  ELSE NoOut
RespOut(ok) ==
  IF t2 \in Quiet2 \/ ~ok \/ t2 = "flr" \/ ev2 THEN NoOut
  ELSE IF t2 = "rpread" THEN [k |-> "r", ty |-> r2.ty, hit |-> hit2, v |-> DataOut[r2.w]]
  ELSE IF t2 = "rpamo" THEN [k |-> "r", ty |-> r2.ty, hit |-> hit2, v |-> r2.ln[1]]
  ELSE IF t2 \in {"rpwrite", "rpinv", "rpflush"} THEN [k |-> "r", ty |-> r2.ty, hit |-> hit2, v |-> 0]
  ELSE IF t2 = "read" /\ hit2 THEN [k |-> "r", ty |-> r2.ty, hit |-> hit2, v |-> DataOut[r2.w]]
  ELSE IF t2 = "write" /\ hit2 THEN [k |-> "r", ty |-> r2.ty, hit |-> hit2, v |-> 0]
  ELSE NoOut

----------------------------------------------------------------------------
(* M1: tags *)
TagEn    == ~ev2 /\ t1 \in {"read", "write", "amo", "flr"}
TagOut   == IF was /\ Fault # "notaghold" THEN tsr ELSE trd                      \* tag stall engines
Entry(k) == IF TagEn THEN TagOut[k] ELSE ZeroTag
HitS     == IF TagEn THEN {k \in WaysS : TagOut[k].v /\ TagOut[k].t = r1.tag} ELSE {}
GhostS   == IF TagEn THEN {k \in WaysS : ~TagOut[k].v /\ TagOut[k].d # {} /\ TagOut[k].t = r1.tag} ELSE {}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
HitWay   == IF HitS \cup GhostS = {} THEN 1 ELSE MaxOf(HitS \cup GhostS)
PuHit    == HitS # {}
PuGhost  == GhostS # {}
HsOut    == IF (~was /\ ~ev2) \/ Fault = "nohithold" THEN [hit |-> PuHit \/ PuGhost, way |-> HitWay] ELSE hsr
Rep      == rep[r1.s]
Hit1     == t1 \in {"read", "write", "amo"} /\ PuHit
Evict1   == CASE t1 \in {"read", "write"} -> (Fault = "ghostevict" \/ ~PuGhost) /\ ~PuHit /\ Entry(Rep).d # {}
              [] t1 = "amo"               -> (PuHit \/ PuGhost) /\ Entry(HitWay).d # {}
              [] OTHER -> FALSE
Written  == {r1.w}
CleanHit0 == Fault # "nobubble" /\ t1 = "write" /\ PuHit /\ ~PuGhost /\ ~(Written \subseteq TagOut[HitWay].d)
FlSent1  == t1 = "flr" /\ Entry(upd1).d # {}
FlNone1  == t1 = "flr" /\ Entry(upd1).d = {}
WayOff1 == CASE t1 \in {"rpread", "rpwrite", "refill"} -> way1
             [] t1 \in {"read", "write"} -> IF PuHit \/ PuGhost THEN HitWay ELSE Rep
             [] t1 = "amo" -> HsOut.way
             [] t1 \in {"flr", "init"} -> upd1
             [] OTHER -> HitWay
WMask1 == Entry(WayOff1).d
Stall1(st2) == st2 \/ Evict1
Alloc1 == CASE t1 \in {"amo", "inv0", "fl0"} -> ~Evict1
            [] t1 \in {"read", "write"} -> ~Evict1 /\ ~PuHit
            [] OTHER -> FALSE
RepUpd == CASE t1 \in {"read", "write"} /\ ~Evict1 ->
                 [en |-> TRUE, to |-> IF PuHit \/ PuGhost THEN Other(Ways, HitWay) ELSE Other(Ways, Rep)]
            [] t1 = "amo" /\ (PuHit \/ PuGhost) -> [en |-> TRUE, to |-> HitWay]
            [] OTHER -> [en |-> FALSE, to |-> 1]

----------------------------------------------------------------------------
(* M0 *)
MemVal == mv /\ mty # "wb"
WrAck  == mv /\ mty = "wb"
FlDone == FlNone1 \/ WrAck \/ t1 = "flw"
Rdy(st2, al) == ~( fsm = "INIT" \/ CleanHit0 \/ Stall1(st2) \/ mshr.n = 1 \/ (al /\ Fault # "rdyearly") )

Trans0(rq) ==
  CASE fsm = "INIT" -> "init"
    [] fsm # "INIT" /\ CleanHit0 -> "clean"
    [] fsm = "REPLAY" /\ ~CleanHit0 ->
         IF mshr.n = 0 THEN "none"
         ELSE IF mshr.ty = "write" THEN "rpwrite" ELSE IF mshr.ty = "read" THEN "rpread"
         ELSE IF mshr.ty = "inv" THEN "rpinv"
         ELSE IF mshr.ty = "flush" THEN (IF FlDone THEN "rpflush" ELSE "flwait") ELSE "none"
    [] fsm = "INV" /\ ~CleanHit0 -> "invw"
    [] fsm = "FLUSH" /\ ~CleanHit0 -> IF FlSent1 THEN "flwait" ELSE "flr"
    [] fsm = "FLWAIT" /\ ~CleanHit0 -> IF WrAck THEN "flw" ELSE "flwait"
    [] fsm = "READY" /\ ~CleanHit0 ->
         IF MemVal /\ mshr.n = 1
         THEN (IF mshr.ty \in {"read", "write"} THEN "refill" ELSE IF mshr.ty = "amo" THEN "rpamo" ELSE "none")
         ELSE IF mshr.n = 0 /\ rq # NoRq
         THEN (IF rq[1] = "inv" THEN "inv0" ELSE IF rq[1] = "flush" THEN "fl0" ELSE rq[1])
         ELSE "none"
FsmNext(rq) ==     \* only with M0 not stalled
  CASE fsm = "INIT" -> IF cnt = 0 THEN "READY" ELSE "INIT"
    [] fsm = "READY" ->
         IF MemVal /\ mshr.ty \in {"read", "write"} THEN "REPLAY"
         ELSE IF mshr.n = 0 /\ rq # NoRq
         THEN (IF rq[1] = "inv" THEN "INV" ELSE IF rq[1] = "flush" THEN "FLUSH" ELSE "READY")
         ELSE "READY"
    [] fsm = "INV" -> IF cnt = 0 THEN "REPLAY" ELSE "INV"
    [] fsm = "REPLAY" -> IF mshr.n = 1 /\ mshr.ty = "flush" THEN (IF FlDone THEN "READY" ELSE "FLWAIT") ELSE "READY"
    [] fsm = "FLUSH" -> IF FlSent1 /\ Fault # "flushnowait" THEN "FLWAIT" ELSE IF cnt = 0 THEN "REPLAY" ELSE "FLUSH"
    [] fsm = "FLWAIT" -> IF WrAck THEN (IF cnt = (IF Fault = "flushend" THEN 0 ELSE N - 1) THEN "REPLAY" ELSE "FLUSH") ELSE "FLWAIT"

----------------------------------------------------------------------------
(* the specification side *)
Spec1(rq) ==   \* what a request accepted now must cause
  LET ty == rq[1] tag == <<rq[2]>> s == rq[3] w == rq[4]
      a  == <<rq[2], s, w>>
      new == (ideal[a] + 1) % NVals
      Wb(tg, st, m) == [k |-> "wb", tag |-> tg, s |-> st, m |-> m,
                        ln |-> [x \in m |-> ideal[<<tg[1], st, x>>]]]
  IN CASE ty \in {"read", "write"} ->
            LET c == Access(prow[s], Ways, tag, IF ty = "write" THEN {w} ELSE {}) IN
            [ row |-> [prow EXCEPT ![s] = c.row],
              id  |-> IF ty = "write" THEN [ideal EXCEPT ![a] = new] ELSE ideal,
              r   |-> [k |-> "r", ty |-> ty, hit |-> c.hit, v |-> IF ty = "read" THEN ideal[a] ELSE 0],
              m   |-> (IF c.evict = {} THEN <<>> ELSE <<{Wb(c.vtag, s, c.evict)}>>)
                      \o (IF c.fill THEN <<{[k |-> "rd", tag |-> tag, s |-> s]}>> ELSE <<>>) ]
       [] ty = "amo" ->
            LET c == Amo(prow[s], Ways, tag) IN
            [ row |-> [prow EXCEPT ![s] = c.row],
              id  |-> [ideal EXCEPT ![a] = new],
              r   |-> [k |-> "r", ty |-> ty, hit |-> FALSE, v |-> ideal[a]],
              m   |-> (IF c.evict = {} THEN <<>> ELSE <<{Wb(tag, s, c.evict)}>>)
                      \o <<{[k |-> "amo", tag |-> tag, s |-> s, w |-> w, v |-> new]}>> ]
       [] ty = "inv" ->
            [ row |-> [x \in SetS |-> InvRow(prow[x])], id |-> ideal,
              r |-> [k |-> "r", ty |-> ty, hit |-> FALSE, v |-> 0], m |-> <<>> ]
       [] ty = "flush" ->
            LET D == UNION {{Wb(prow[x].w[k].t, x, prow[x].w[k].d) : k \in DirtyWays(prow[x])} : x \in SetS} IN
            [ row |-> [x \in SetS |-> FlushRow(prow[x])], id |-> ideal,
              r |-> [k |-> "r", ty |-> ty, hit |-> FALSE, v |-> 0], m |-> IF D = {} THEN <<>> ELSE <<D>> ]

\* a memory request as the specification sees it: only masked words count
Seen(o) == IF o.k = "wb" THEN [o EXCEPT !.ln = [x \in o.m |-> o.ln[x]]] ELSE o

\* identifies a state in the printed transitions (TLCFP alone has 32 bits)
Name(x) == <<TLCFP(x), TLCFP(<<x, "and once more">>)>>

----------------------------------------------------------------------------
(* one clock cycle: rq offered request (or none), ok = output ports ready, *)
(* md = memory answers now                                                 *)
Cycle(rq, ok, md) ==
  LET st2   == Stall2(ok)
      mo    == MemOut(ok)
      ro    == RespOut(ok)
      st    == Stall1(st2)                       \* = stall of M0
      al    == Alloc1 /\ ~st
      rdy   == Rdy(st2, al)
      acc   == rq # NoRq
      t0    == Trans0(rq)
      msel  == fsm = "REPLAY" \/ mv              \* MSHR instead of the port
      \* request seen in M0
      p0 == IF msel THEN [ty |-> mshr.ty, tag |-> mshr.tag, s |-> mshr.s, w |-> mshr.w, v |-> mshr.v]
            ELSE IF acc THEN [ty |-> rq[1], tag |-> <<rq[2]>>, s |-> rq[3], w |-> rq[4],
                              v |-> IF rq[1] \in {"write", "amo"} THEN (ideal[<<rq[2], rq[3], rq[4]>>] + 1) % NVals ELSE 0]
            ELSE [ty |-> "none", tag |-> NoTag, s |-> 0, w |-> 1, v |-> 0]
      a0 == IF t0 = "clean" THEN [tag |-> r1.tag, s |-> r1.s, w |-> r1.w] ELSE [tag |-> p0.tag, s |-> p0.s, w |-> p0.w]
      ln0 == IF t0 = "refill" \/ t0 = "rpamo" THEN mdat ELSE [w \in WordS |-> p0.v]
      \* tag array access
      wi  == IF t0 \in {"flw", "rpflush"} /\ Fault # "flushidx" THEN (cnt + 1) % N ELSE cnt
      wset == wi \div Ways
      wway == (wi % Ways) + 1
      walk == t0 \in {"init", "invw", "rpinv", "flr", "flw", "rpflush"}
      uway == IF walk THEN wway ELSE 1
      tval == CASE walk -> {wway}
                [] t0 \in {"refill", "rpwrite"} -> {mshr.repl}
                [] t0 = "rpamo" /\ (mshr.ahit \/ Fault = "amodrop") -> {mshr.repl}
                [] t0 = "clean" -> {HitWay}
                [] t0 \in {"read", "write", "amo"} -> WaysS
                [] OTHER -> {}
      tidx == IF walk THEN wset ELSE a0.s
      old  == Entry(IF t0 \in {"invw", "rpinv", "flw", "rpflush"} THEN uway ELSE HitWay)
      newd == CASE t0 = "rpwrite" -> {a0.w} \cup mshr.dm
                [] t0 = "refill" -> mshr.dm
                [] t0 = "clean" -> old.d \cup {a0.w}
                [] OTHER -> {}
      wr(e) == CASE t0 \in {"init", "rpamo"} -> [t |-> IF t0 = "init" THEN NoTag ELSE a0.tag, v |-> FALSE, d |-> {}]
                 [] t0 \in {"refill", "rpwrite"} -> [t |-> a0.tag, v |-> TRUE, d |-> newd]
                 [] t0 = "clean" -> [t |-> a0.tag, v |-> old.v, d |-> newd]
                 [] t0 \in {"invw", "rpinv"} -> [e EXCEPT !.v = FALSE]
                 [] t0 \in {"flw", "rpflush"} -> [e EXCEPT !.d = old.d]
                 [] OTHER -> e
      trdr == t0 \in {"read", "write", "amo", "flr"}
      tagA2 == IF t0 \in {"init", "rpamo", "refill", "rpwrite", "clean", "invw", "rpinv", "flw", "rpflush"}
                 THEN [k \in WaysS |-> IF k \in tval THEN [tagA[k] EXCEPT ![tidx] = wr(@)] ELSE tagA[k]]
                 ELSE tagA
      trd2  == IF trdr THEN [k \in WaysS |-> IF k \in tval THEN tagA[k][tidx] ELSE trd[k]] ELSE trd
      \* M1 registers
      en1  == ~st /\ ~Evict1 /\ t0 # "init"
      cen1 == en1 \/ t0 = "init"
      t1n  == IF cen1 THEN t0 ELSE t1
      keep1 == t1n \in {"read", "write", "amo", "refill", "rpread", "rpwrite", "rpamo", "rpinv", "rpflush", "inv0", "fl0"}
      r1n  == IF ~keep1 THEN NoReq
              ELSE IF en1 THEN [ty |-> p0.ty, tag |-> a0.tag, s |-> a0.s, w |-> a0.w, ln |-> ln0] ELSE r1
      \* data array access
      evsel == (Evict1 /\ t1 \in {"read", "write", "amo"}) \/ t1 \in {"flr", "init"}
      didx == IF evsel THEN (IF t1 \in {"flr", "init"} THEN fix1 ELSE r1.s) ELSE r1.s
      dway == WayOff1
      drdr == Evict1 \/ t1 = "rpread" \/ FlSent1 \/ (t1 = "read" /\ PuHit)
      dwm  == CASE t1 = "refill" -> WordS \ dm1
                [] t1 = "rpwrite" -> {r1.w}
                [] t1 = "write" /\ PuHit /\ ~Evict1 -> {r1.w}
                [] OTHER -> {}
      dat2 == IF dwm = {} THEN dat
              ELSE [dat EXCEPT ![dway][r1.s] = [w \in WordS |-> IF w \in dwm THEN r1.ln[w] ELSE @[w]]]
      drd2 == IF drdr THEN dat[dway][didx] ELSE drd
      \* M2 registers
      en2  == ~st2 /\ t1 # "init"
      cen2 == en2 \/ t1 = "init"
      t2n  == IF cen2 THEN t1 ELSE t2
      ev2n == IF cen2 THEN Evict1 ELSE ev2
      use2 == t2n \notin Quiet2
      r2n  == IF ~use2 THEN NoReq
              ELSE IF en2 THEN [ty |-> r1.ty, tag |-> IF evsel THEN TagOut[dway].t ELSE r1.tag,
                                s |-> didx, w |-> r1.w, ln |-> r1.ln] ELSE r2
      rdata2 == t2n \in {"rpread", "flr"} \/ ev2n \/ (t2n = "read")
      wasn == st2
      \* MSHR
      de == t0 \in {"rpread", "rpwrite", "rpamo", "rpinv", "rpflush"} /\ ~st
      mshr2 == IF al THEN [n |-> 1, ty |-> r1.ty, tag |-> r1.tag, s |-> r1.s, w |-> r1.w, v |-> r1.ln[1],
                           repl |-> IF Fault = "mshrway" THEN Rep ELSE WayOff1, ahit |-> HsOut.hit, dm |-> IF Fault = "nomask" THEN {} ELSE IF Evict1 THEN {} ELSE WMask1]
               ELSE IF de THEN NoMshr ELSE mshr
      cen0 == fsm \in {"INIT", "INV"} \/ t0 = "flr"
      \* memory
      ans  == Head(mq)
      mq1  == IF md THEN Tail(mq) ELSE mq
      mq2  == CASE mo.k = "wb"  -> Append(mq1, [ty |-> "wb", ln |-> NoLine])
                [] mo.k = "rd"  -> Append(mq1, [ty |-> "read", ln |-> LineOf(mem, mo.tag, mo.s)])
                [] mo.k = "amo" -> Append(mq1, [ty |-> "amo", ln |-> [w \in WordS |-> mem[<<mo.tag[1], mo.s, mo.w>>]]])
                [] OTHER -> mq1
      mem2 == CASE mo.k = "wb" -> [a \in Addrs |-> IF mo.tag = <<a[1]>> /\ mo.s = a[2] /\ a[3] \in mo.m
                                                     THEN mo.ln[a[3]] ELSE mem[a]]
                [] mo.k = "amo" -> [mem EXCEPT ![<<mo.tag[1], mo.s, mo.w>>] = mo.v]
                [] OTHER -> mem
      sp   == IF acc THEN Spec1(rq) ELSE [row |-> prow, id |-> ideal, r |-> <<>>, m |-> <<>>]
      xr1  == IF ro.k = "r" /\ xr # <<>> THEN Tail(xr) ELSE xr
      xm1  == IF mo.k # "no" /\ xm # <<>>
                THEN (IF Seen(mo) \in Head(xm) /\ Head(xm) # {Seen(mo)} THEN <<Head(xm) \ {Seen(mo)}>> \o Tail(xm)
                      ELSE Tail(xm))
                ELSE xm
  IN /\ acc => rdy
     /\ md => mq # <<>>
     /\ fsm' = IF st THEN fsm ELSE FsmNext(rq)
     /\ cnt' = IF ~st /\ cen0 THEN (IF cnt = 0 THEN N - 1 ELSE cnt - 1) ELSE cnt
     /\ mv' = IF st /\ Fault # "mvstall" THEN mv ELSE md
     /\ mty' = IF st THEN mty ELSE IF md THEN ans.ty ELSE "none"
     /\ mdat' = IF st THEN mdat ELSE IF md THEN ans.ln ELSE NoLine
     /\ mshr' = mshr2
     /\ t1' = t1n /\ r1' = r1n
     /\ way1' = IF t1n \notin {"refill", "rpread", "rpwrite"} THEN 1 ELSE IF cen1 THEN mshr.repl ELSE way1
     /\ upd1' = IF t1n \notin {"flr", "init"} THEN 1 ELSE IF cen1 THEN uway ELSE upd1
     /\ fix1' = IF t1n \notin {"flr", "init"} THEN 0 ELSE IF cen1 THEN wset ELSE fix1
     /\ dm1' = IF t1n # "refill" THEN {} ELSE IF en1 THEN mshr.dm ELSE dm1
     /\ tagA' = tagA2
     /\ trd' = IF t1n \in {"read", "write", "amo", "flr"} THEN trd2 ELSE [k \in WaysS |-> ZeroTag]
     /\ was' = wasn
     /\ tsr' = IF ~wasn THEN [k \in WaysS |-> ZeroTag] ELSE TagOut
     /\ hsr' = IF wasn \/ ev2n THEN HsOut ELSE [hit |-> FALSE, way |-> 1]
     /\ rep' = IF RepUpd.en /\ (~st2 \/ Fault = "repstall") THEN [rep EXCEPT ![r1.s] = RepUpd.to] ELSE rep
     /\ t2' = t2n /\ r2' = r2n /\ ev2' = (Fault # "evlost" /\ ev2n)
     /\ hit2' = IF cen2 THEN Hit1 ELSE hit2
     /\ fl2' = IF cen2 THEN FlSent1 ELSE fl2
     /\ wm2' = IF ~(t2n = "flr" \/ ev2n) THEN {} ELSE IF en2 THEN WMask1 ELSE wm2
     /\ dat' = dat2
     /\ drd' = IF rdata2 THEN drd2 ELSE NoLine
     /\ dsr' = IF wasn /\ rdata2 THEN DataOut ELSE NoLine
     /\ mq' = mq2 /\ mem' = mem2
     /\ prow' = sp.row /\ ideal' = sp.id
     /\ xr' = IF acc THEN Append(xr1, sp.r) ELSE xr1
     /\ xm' = xm1 \o sp.m
     /\ resp' = (ro.k = "r")
     /\ err' = (IF ro.k = "r" /\ (xr = <<>> \/ (xr # <<>> /\ ro # Head(xr))) THEN {"response"} ELSE {})
               \cup (IF mo.k # "no" /\ (xm = <<>> \/ (xm # <<>> /\ Seen(mo) \notin Head(xm))) THEN {"memreq"} ELSE {})
               \cup (IF md /\ st /\ ans.ty # "wb" THEN {"lost answer"} ELSE {})
               \cup (IF md /\ st /\ mshr.n = 1 /\ mshr.ty = "flush" THEN {"lost flush ack"} ELSE {})
               \cup (IF Len(mq2) > MaxMem THEN {"too many memory requests"} ELSE {})
     /\ (Emit => PrintT("EDGE" \o ToJson(<<Name(vars), rq, ok, md, Name(vars'), rdy, mo.k, ro.k, IF ro.k = "r" THEN ro.hit ELSE FALSE,
                                         <<fsm, t0, t1, t2, ev2, Evict1>> >>)))

Next == \E rq \in {NoRq} \cup Reqs, ok \in BOOLEAN, md \in BOOLEAN :
          /\ (t2 \in Quiet2 => ok)          \* a refusal would not be noticed
          /\ Cycle(rq, ok, md)

Spec == Init /\ [][Next]_vars
             /\ SF_vars(\E rq \in {NoRq} \cup Reqs : Cycle(rq, TRUE, mq # <<>>))

Sound == err = {}
\* when nothing is in progress, the arrays say what the policy says
Quiescent == fsm = "READY" /\ t1 = "none" /\ t2 = "none" /\ mshr.n = 0 /\ mq = <<>> /\ ~mv
Settled == Quiescent =>
  /\ xr = <<>> /\ xm = <<>>
  /\ \A s \in SetS : /\ rep[s] = prow[s].lru
                     /\ \A k \in WaysS : LET e == tagA[k][s] p == prow[s].w[k] IN
                          /\ e.v = p.v /\ e.d = p.d
                          /\ (e.v \/ e.d # {}) => e.t = p.t
                          /\ \A w \in WordS : (e.v \/ w \in e.d) => dat[k][s][w] = ideal[<<e.t[1], s, w>>]
Blocking == Len(mq) <= 2
Answered == [](xr # <<>> => <>resp)
==============================================================================
