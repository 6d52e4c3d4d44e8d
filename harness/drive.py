"""Drives one or more caches over one memory and records what crosses their
interfaces, as the events of spec/CacheTrace.tla.

The memory is the environment of the specification: in order per cache,
latency >= 1 cycle, honours wr_mask, performs AMOs.  Nothing here judges
the cache; TLC does.
"""
import random

READ, WRITE, INIT, AMO_ADD, AMO_XOR, INV, FLUSH = 0, 1, 2, 3, 11, 14, 15


def init_byte(a):
  hi, lo = a >> 16, a & 0xffff
  return (lo * 37 + (lo // 256) * 101 + (hi % 65536) * 59
          + ((hi % 65536) // 256) * 17 + (hi // 65536) * 43 + 11) % 256


class Memory:
  def __init__(s):
    s.w = {}
  def word(s, a):
    """4 bytes at word-aligned a, as an int."""
    v = s.w.get(a)
    if v is None:
      v = init_byte(a) | init_byte(a + 1) << 8 | init_byte(a + 2) << 16 | init_byte(a + 3) << 24
      s.w[a] = v
    return v
  def line(s, a, lb):
    v = 0
    for k in range(0, lb, 4):
      v |= s.word(a + k) << (8 * k)
    return v
  def write_line(s, a, lb, mask, data):
    for k in range(lb // 4):
      if (mask >> k) & 1:
        s.w[a + 4 * k] = (data >> (32 * k)) & 0xffffffff
  def amo(s, ty, a, x):
    old = s.word(a)
    sg = lambda v: v - (1 << 32) if v >> 31 else v
    if   ty == 3:  n = (old + x) & 0xffffffff
    elif ty == 4:  n = old & x
    elif ty == 5:  n = old | x
    elif ty == 6:  n = x
    elif ty == 7:  n = old if sg(old) < sg(x) else x
    elif ty == 8:  n = min(old, x)
    elif ty == 9:  n = old if sg(old) > sg(x) else x
    elif ty == 10: n = max(old, x)
    else:          n = old ^ x
    s.w[a] = n
    return old


class Req:
  __slots__ = ('ty', 'addr', 'len', 'data', 'op', 'gap', 'after', 'chk', 'barrier')
  def __init__(s, ty, addr=0, len=0, data=0, op=0, gap=0, after=None, chk=1, barrier=None):
    s.ty, s.addr, s.len, s.data, s.op, s.gap = ty, addr, len, data, op, gap
    s.after = after        # wait until everything before it has been answered
    s.chk = chk
    s.barrier = barrier    # multi-cache: phase number (see run)
  def tup(s):
    return [s.ty, s.addr, s.len, s.data, s.op, s.gap, s.after, s.chk, s.barrier]


class Env:
  """How the outside behaves, cycle by cycle."""
  def __init__(s, seed=0, p_resp=1.0, p_mreq=1.0, p_req=1.0, lat=(1, 1), idle='zero',
               burst=0.0, resets=(), nostall=0, script=None, rare=0.0):
    s.seed, s.p_resp, s.p_mreq, s.p_req = seed, p_resp, p_mreq, p_req
    s.lat, s.idle, s.burst = lat, idle, burst
    s.rare = rare                # how often something takes hundreds of cycles
    s.resets = list(resets)      # cycle numbers at which a reset begins
    s.nostall = nostall
    # cycle by cycle after reset: (offer the next request?, output ports ready?,
    # memory answers?, prediction of the pipeline model)
    s.script = script
    s.drift = None               # first cycle in which the prediction was wrong
  def rec(s):
    return dict(seed=s.seed, p_resp=s.p_resp, p_mreq=s.p_mreq, p_req=s.p_req, lat=list(s.lat),
                idle=s.idle, burst=s.burst, rare=s.rare, resets=s.resets, nostall=s.nostall)


def bl(v, n):
  return list(v.to_bytes(n, 'little'))


def g1(d, msg):
  return 1 if d.cp.get(msg, 'test') else 0


LONG = (33, 70, 130, 260, 300, 520, 1030)


class Port:
  pass


def run(duts, reqs, env, tid, multi=0, max_cycles=200000, phases=False, budget=None):
  """duts: list of DUTs (fresh or about to be reset); reqs: list (per cache) of
  lists of Req.  Returns the trace object."""
  rng = random.Random(env.seed)
  cfg = duts[0].cfg
  lb, db, obw, abw = cfg.lb, cfg.db, cfg.obw, cfg.abw
  nw = lb // 4
  lenmask_db = db
  mem = Memory()
  ev = []
  nc = len(duts)
  P = []
  for k in range(nc):
    p = Port()
    p.d = duts[k]
    p.q = reqs[k]
    p.i = 0                 # next request
    p.wait = 0              # cycles the current request has been offered
    p.gap = reqs[k][0].gap if reqs[k] else 0
    p.mq = []               # [due cycle, packed response, event]
    p.owed = 0
    p.rst = 3               # reset cycles left
    p.sc = -1               # position in the script
    p.idle = 0              # cycles without any event
    p.lastreq = 0
    p.lastresp = 0
    p.acc = 0
    p.offer = False
    f = duts[k]
    p.cqf, p.cpf, p.mqf, p.mpf = f.cq.fields, f.cp, f.mq, f.mp
    P.append(p)
  lenbits = duts[0].cq.width('len')
  resets = list(env.resets)
  LIM = 4 * cfg.nlines + 400
  # no correct cache makes more events than this: 6 per request (accepted,
  # answered, write-back and fetch with their answers), 2 per line for a FLUSH
  EVLIM = 1000 + 4 * len(resets) + sum(12 + (2 * cfg.nlines if r.ty == 15 else 0) for q in reqs for r in q)
  drain = False
  why = None
  phase = 0
  cyc = 0
  tail = 0
  stall_r = [0] * nc
  stall_m = [0] * nc
  rnd = rng.random
  def garbage(p, fmt, last):
    m = env.idle
    if m == 'zero':
      return 0
    if m == 'ones':
      return (1 << fmt.nbits) - 1
    if m == 'last':
      return last
    return rng.getrandbits(fmt.nbits)
  hung = 0
  while True:
    if resets and cyc >= resets[0] and not drain:
      resets.pop(0)
      k = rng.randrange(nc) if nc > 1 else 0
      P[k].rst = rng.choice((1, 2, 2, 3, 4))
    busy = False
    for cid in range(nc):
      p = P[cid]
      d = p.d
      sc = None
      if env.script is not None and not drain and not p.rst:
        p.sc += 1
        if p.sc >= len(env.script):
          drain = True
        elif env.script[p.sc] is None:
          # reset, for a cycle or more; what was not accepted is offered later
          p.rst = rng.choice((1, 1, 2, 3))
        else:
          sc = env.script[p.sc]
      if p.rst:
        p.rst -= 1
        d.step(1, None, garbage(p, d.cq, p.lastreq), 1 if rnd() < .5 else 0, 1 if rnd() < .5 else 0,
               None, garbage(p, d.mp, p.lastresp))
        p.mq = []
        p.owed = 0
        p.offer = False
        p.wait = 0
        p.idle = 0
        busy = True
        if p.rst == 0:
          ev.append(dict(k='rst', cid=cid, c=cyc))
        continue
      if sc is not None:
        rr, mr = (1, 1) if sc[1] else rng.choice(((0, 0), (0, 1), (1, 0)))
      elif drain or env.p_resp >= 1 and not env.rare:
        rr = 1
      elif stall_r[cid] > 0:
        stall_r[cid] -= 1
        rr = 0
      else:
        rr = 1 if rnd() < env.p_resp else 0
        if env.rare and rnd() < env.rare:
          rr, stall_r[cid] = 0, rng.choice(LONG)
        elif not rr and env.burst and rnd() < env.burst:
          stall_r[cid] = rng.randrange(1, 12)
      if sc is not None:
        pass
      elif drain or env.p_mreq >= 1 and not env.rare:
        mr = 1
      elif stall_m[cid] > 0:
        stall_m[cid] -= 1
        mr = 0
      else:
        mr = 1 if rnd() < env.p_mreq else 0
        if env.rare and rnd() < env.rare:
          mr, stall_m[cid] = 0, rng.choice(LONG)
        elif not mr and env.burst and rnd() < env.burst:
          stall_m[cid] = rng.randrange(1, 12)
      # request to offer
      rq = None
      if p.i < len(p.q) and not hung:
        r = p.q[p.i]
        if sc is not None:
          # once offered, offered until accepted
          p.offer = p.offer or bool(sc[0])
          rq = r if p.offer else None
        elif p.gap > 0 and not drain:
          p.gap -= 1
        elif r.after and p.owed:
          pass
        elif r.barrier is not None and r.barrier > phase:
          pass
        elif p.offer or drain or env.p_req >= 1 or rnd() < env.p_req:
          p.offer = True
          rq = r
      mresp = None
      if p.mq and (sc[2] if sc is not None else p.mq[0][0] <= cyc):
        mresp = p.mq[0][1]
      packed = None
      if rq is not None:
        packed = d.cq.pack(type_=rq.ty, opaque=rq.op, addr=rq.addr, len=rq.len, data=rq.data)
        p.lastreq = packed
      o_rr, o_re, o_rm, o_me, o_mm, o_mr = d.step(
          0, packed, 0 if packed is not None else garbage(p, d.cq, p.lastreq), rr, mr,
          mresp, 0 if mresp is not None else garbage(p, d.mp, p.lastresp))
      if sc is not None and env.drift is None:
        if sc[3] != [o_rr, o_me, o_re and 1 + g1(d, o_rm)]:
          env.drift = cyc
      act = False
      if o_re:
        act = True
        g = d.cp.get
        ev.append(dict(k='rs', cid=cid, c=cyc, ty=g(o_rm, 'type_'), op=g(o_rm, 'opaque'), te=g(o_rm, 'test'),
                       len=g(o_rm, 'len'), dat=bl(g(o_rm, 'data'), db), r=rr))
        if rr and p.owed > 0:
          p.owed -= 1
      if o_me:
        act = True
        g = d.mq.get
        ty, ad, ln = g(o_mm, 'type_'), g(o_mm, 'addr'), g(o_mm, 'len')
        mask, dat, op = g(o_mm, 'wr_mask'), g(o_mm, 'data'), g(o_mm, 'opaque')
        e = dict(k='mq', cid=cid, c=cyc, ty=ty, op=op, ad=[ad >> 16, ad & 0xffff], len=ln, mask=[], dat=[], r=mr)
        if ty == WRITE:
          e['mask'] = [(mask >> x) & 1 for x in range(nw)]
          e['dat'] = bl(dat, lb)
        elif ty != READ:
          e['dat'] = bl(dat & 0xffffffff, 4)
        ev.append(e)
        if mr:
          base = ad - ad % lb
          out = 0
          rdat = []
          if ty == WRITE:
            mem.write_line(base, lb, mask, dat)
          elif ty == READ:
            out = mem.line(base, lb)
            rdat = bl(out, lb)
          elif AMO_ADD <= ty <= AMO_XOR:
            a4 = ad - ad % 4
            old = mem.amo(ty, a4, dat & 0xffffffff)
            rdat = bl(old, 4)
            out = old
          lo, hi = env.lat
          due = cyc + (1 if drain else rng.randint(lo, hi) if hi > lo else lo)
          if env.rare and not drain and rnd() < 8 * env.rare:
            due += rng.choice(LONG)
          if p.mq and due < p.mq[-1][0]:
            due = p.mq[-1][0]
          # bits the memory does not define carry noise (a WRITE response has
          # no data; an AMO's response defines 32 bits only)
          if env.idle == 'rand' and ty == WRITE:
            out = rng.getrandbits(lb * 8)
          elif env.idle == 'rand' and ty != READ:
            out |= rng.getrandbits(lb * 8) & ~0xffffffff
          # ... and the cache is documented to ignore test, len and wr_mask
          noise = rng.getrandbits(24) if env.idle == 'rand' else 0
          m = d.mp.pack(type_=ty, opaque=op, test=noise, len=(ln ^ noise >> 3), data=out, wr_mask=noise >> 8)
          p.mq.append([due, m, dict(k='mp', cid=cid, ty=ty, dat=rdat)])
      if mresp is not None and o_mr:
        act = True
        x = p.mq.pop(0)
        x[2]['c'] = cyc
        ev.append(x[2])
        p.lastresp = mresp
      if rq is not None:
        if o_rr:
          act = True
          r = rq
          e = dict(k='acc', cid=cid, c=cyc, w=p.wait, ty=r.ty, op=r.op, ad=[r.addr >> 16, r.addr & 0xffff],
                   len=r.len, dat=bl(r.data, db), chk=r.chk)
          ev.append(e)
          p.owed += 1
          p.i += 1
          p.wait = 0
          p.offer = False
          p.acc += 1
          if p.i < len(p.q):
            p.gap = p.q[p.i].gap
        else:
          p.wait += 1
      if act:
        p.idle = 0
      else:
        p.idle += 1
      if p.mq or p.owed or (p.i < len(p.q)):
        busy = True
    cyc += 1
    if budget and cyc >= budget and not drain:
      drain = True
      resets = []
      for p in P:
        p.idle = 0
      max_cycles = cyc + 20 * LIM + 50 * sum(len(p.q) - p.i for p in P)
    # phase barrier (several caches): next phase once all are quiet
    if phases and all(p.owed == 0 and (p.i >= len(p.q) or p.q[p.i].barrier is None or p.q[p.i].barrier > phase)
                      for p in P) and any(p.i < len(p.q) for p in P):
      phase += 1
    stuck = min(p.idle for p in P)
    if not busy:
      tail += 1
      if tail > 12:
        why = 'hang' if hung else 'done'
        break
    else:
      tail = 0
      if len(ev) > EVLIM:
        why = 'hang'
        break
      if stuck > LIM * (1 if drain else 4) or cyc > max_cycles:
        if not drain:
          drain = True
          for p in P:
            p.idle = 0
          max_cycles = cyc + 20 * LIM + 50 * sum(len(p.q) - p.i for p in P)
        else:
          why = 'hang'
          break
  ev.append(dict(k='end', cid=0, c=cyc, why=why))
  return dict(id=tid, cfg=dict(cfg.rec(), nc=nc, multi=multi, nostall=env.nostall), ev=ev, cycles=cyc)
