"""Stimulus generation: request streams for one cache."""
import random
from drive import Req, READ, WRITE, INIT, INV, FLUSH

AMOS = list(range(3, 12))


def read_lens(cfg):
  return [1 << k for k in range((cfg.dbw // 8).bit_length() - 1)] + [0]


def write_lens(cfg):
  l = list(read_lens(cfg))
  if cfg.dbw == 32 and cfg.clw >= 64:
    l.append(3)
  return l


def size(cfg, ty, ln):
  if ln == 0:
    return cfg.db
  if ln == 3 and cfg.dbw == 32 and ty == WRITE:
    return 8
  return ln


class Pool:
  """Line addresses that collide: a few sets, a few tags per set, tags
  differing in single bits at both ends of the tag."""
  def __init__(s, cfg, rng, nsets=2, ntags=4, spread=True):
    s.cfg = cfg
    span = cfg.lb * cfg.ns
    tbits = cfg.abw - (span - 1).bit_length() if span > 1 else cfg.abw
    tmax = 1 << min(tbits, 46 - 0)
    sets = rng.sample(range(cfg.ns), min(nsets, cfg.ns))
    base = rng.choice([0, tmax - 1, rng.randrange(tmax), rng.randrange(tmax)])
    tags = [base]
    ntags = min(ntags, tmax)
    cand = list(range(tbits if tbits < 46 else 46))
    while len(tags) < ntags:
      r = rng.random()
      if r < .6:
        t = base ^ (1 << rng.choice(cand))
      elif r < .7:
        t = base ^ (1 << cand[-1])
      elif r < .8:
        t = (tmax - 1) ^ base
      else:
        t = rng.randrange(tmax)
      if t not in tags:
        tags.append(t)
    s.lines = [t * span + x * cfg.lb for x in sets for t in tags]
    s.sets, s.tags = sets, tags


def data_for(rng, nbytes):
  r = rng.random()
  n = nbytes * 8
  if r < .08:
    return (1 << n) - 1
  if r < .12:
    return 0
  if r < .2:
    return sum((0x80000000 if rng.random() < .5 else 0x7fffffff) << (32 * k) for k in range((nbytes + 3) // 4))
  return rng.getrandbits(n)


class Gen:
  """weights: dict over read write amo inv flush.  hot: probability that the
  next access goes to a recently used line."""
  def __init__(s, cfg, rng, w, nsets=2, ntags=4, lens=None, wlens=None, hot=.5, garbage=True, op_mode='rand',
               same_word=.3):
    s.cfg, s.rng, s.w = cfg, rng, w
    s.pool = Pool(cfg, rng, nsets, ntags)
    s.rl = lens or read_lens(cfg)
    s.wl = wlens or (lens if lens else write_lens(cfg))
    s.hot = hot
    s.recent = [rng.choice(s.pool.lines)]
    s.garbage = garbage
    s.op = rng.randrange(1 << cfg.obw)
    s.op_mode = op_mode
    s.kinds = list(w.keys())
    s.ws = [w[k] for k in s.kinds]
    s.last_off = 0
    s.same_word = same_word
    s.last_data = 0
  def data(s, n):
    """now and then the data of an earlier access over again"""
    if s.rng.random() < .1:
      return s.last_data & ((1 << (8 * n)) - 1)
    s.last_data = data_for(s.rng, n)
    return s.last_data
  def opaque(s):
    if s.op_mode == 'rand':
      return s.rng.getrandbits(s.cfg.obw)
    s.op = (s.op + 1) & ((1 << s.cfg.obw) - 1)
    return s.op
  def line(s):
    r = s.rng
    if r.random() < s.hot:
      return r.choice(s.recent)
    l = r.choice(s.pool.lines)
    s.recent.append(l)
    if len(s.recent) > 3:
      s.recent.pop(0)
    return l
  def rw(s, ty, ln=None, line=None):
    r, cfg = s.rng, s.cfg
    if ln is None:
      ln = r.choice(s.rl if ty == READ else s.wl)
    n = size(cfg, ty, ln)
    l = s.line() if line is None else line
    if r.random() < s.same_word:
      off = s.last_off - s.last_off % n
    else:
      off = r.randrange(cfg.lb // n) * n
    s.last_off = off
    if ty == WRITE:
      # bits of the data field beyond the access size are noise
      d = s.data(cfg.db)
      if not s.garbage and n < cfg.db:
        d &= (1 << (8 * n)) - 1
      if ln == 3 and cfg.dbw == 32:
        pass
    else:
      d = r.getrandbits(cfg.dbw) if s.garbage else 0
    return Req(ty, l + off, ln, d, s.opaque())
  def amo(s, ty=None):
    r, cfg = s.rng, s.cfg
    l = s.line()
    off = (s.last_off - s.last_off % 4) if r.random() < s.same_word else r.randrange(cfg.lb // 4) * 4
    s.last_off = off
    d = s.data(4)
    if s.garbage and cfg.dbw > 32:
      d |= r.getrandbits(cfg.dbw - 32) << 32
    return Req(ty or r.choice(AMOS), l + off, 0 if cfg.dbw == 32 else 4, d, s.opaque())
  def maint(s, ty):
    r, cfg = s.rng, s.cfg
    # address, length and data of INV/FLUSH mean nothing; vary them
    a = r.choice([0, s.line(), r.randrange(1 << min(cfg.abw, 46)) & ~3])
    ln = r.randrange(cfg.dbw // 8) if r.random() < .2 else 0
    return Req(ty, a, ln, 0 if not s.garbage else r.getrandbits(cfg.dbw), s.opaque())
  def one(s):
    k = s.rng.choices(s.kinds, s.ws)[0]
    if k == 'read':
      return s.rw(READ)
    if k == 'write':
      return s.rw(WRITE)
    if k == 'amo':
      return s.amo()
    if k == 'inv':
      return s.maint(INV)
    return s.maint(FLUSH)
  def many(s, n):
    return [s.one() for _ in range(n)]
  def readback(s):
    """Read every line of the pool, every word."""
    out = []
    ln = 0
    for l in s.pool.lines:
      for off in range(0, s.cfg.lb, s.cfg.db):
        out.append(Req(READ, l + off, ln, 0, s.opaque()))
    return out
