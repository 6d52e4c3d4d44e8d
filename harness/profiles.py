"""What each check drives into the caches.

A profile is a function (cfg, rng, tier) -> Case: request streams, the
behaviour of the outside world, and how the device is to be powered up.
Profiles are biased towards what their property is about, but none of them
decides anything: the verdict on every event is TLC's.
"""
import random
from dut import Cfg
from drive import Req, Env, READ, WRITE, INIT, INV, FLUSH, LONG as drive_LONG
from stim import Gen, Pool, read_lens, write_lens, size, data_for, AMOS


class Case:
  def __init__(s, reqs, env, multi=0, phases=False, ncaches=1, rand_init=0, chop=None):
    s.reqs, s.env, s.multi, s.phases, s.ncaches, s.rand_init = reqs, env, multi, phases, ncaches, rand_init


# geometries ---------------------------------------------------------------
G = dict(
  a=Cfg(128, 32, 64, 2),     # 2 ways x 2 sets, 4 words per line
  b=Cfg(128, 32, 64, 1),     # direct mapped, 4 sets
  c=Cfg(64, 32, 64, 2),      # 2 words per line, 4 sets
  d=Cfg(128, 64, 128, 2),    # 64-bit port
  e=Cfg(128, 128, 64, 1),    # port as wide as the line
  f=Cfg(64, 64, 32, 2),
  g=Cfg(128, 32, 512, 2),    # 16 sets
  h=Cfg(256, 32, 128, 2),    # 8 words per line
  i=Cfg(512, 64, 256, 2),    # 16 words per line, 64-bit port
  j=Cfg(128, 128, 128, 2),
  k=Cfg(128, 32, 4096, 2),   # the size of the paper design: 128 sets
  l=Cfg(128, 32, 32, 1),     # two lines in all
  m=Cfg(128, 32, 64, 2, obw=2),
  n=Cfg(128, 32, 64, 2, obw=13, abw=40),
  o=Cfg(64, 32, 256, 1, abw=24),
  p=Cfg(256, 128, 128, 2),
  q=Cfg(64, 32, 32, 2),
  r=Cfg(512, 32, 128, 1),
  s=Cfg(128, 32, 16384, 2),  # 512 sets
)


def env(rng, kind='mix', idle=None):
  """kind: calm (never stalls, memory latency 1), mix, harsh."""
  idle = idle or rng.choice(['zero', 'rand', 'rand', 'last', 'ones'])
  seed = rng.getrandbits(30)
  if kind == 'calm' or (kind == 'mix' and rng.random() < .25):
    l = rng.choice([1, 1, 2, 5])
    return Env(seed, lat=(l, l), idle=idle, nostall=1)
  pr = [1, .9, .6, .3] if kind == 'mix' else [1, .7, .4, .2, .1]
  return Env(seed, p_resp=rng.choice(pr), p_mreq=rng.choice(pr), p_req=rng.choice([1, 1, .7, .4]),
             lat=rng.choice([(1, 1), (1, 2), (1, 4), (3, 9), (1, 15), (17, 17)]), idle=idle,
             burst=rng.choice([0, 0, .3]))


def finish(g, reqs, rb=True):
  """FLUSH, then read back a sample of the pool."""
  out = list(reqs)
  out.append(g.maint(FLUSH))
  if rb:
    r = g.readback()
    k = min(len(r), 24)
    out += [r[x] for x in sorted(g.rng.sample(range(len(r)), k))]
  return out


def gaps(reqs, rng, p=.1):
  for r in reqs:
    if rng.random() < p:
      r.gap = rng.choice([1, 2, 3, 5, 9])
    elif rng.random() < p / 3:
      r.after = 1
  return reqs


def mixed(w, kind='mix', n=110, nsets=2, ntags=4, hot=.5, **kw):
  def prof(cfg, rng):
    g = Gen(cfg, rng, w, nsets=nsets, ntags=ntags if cfg.asso == 2 else max(2, ntags - 1), hot=hot, **kw)
    e = env(rng, kind)
    reqs = g.many(rng.randrange(n // 2, n))
    if rng.random() < .5:
      gaps(reqs, rng)
    return Case([finish(g, reqs)], e)
  return prof


W_ALL = dict(read=5, write=5, amo=1.2, inv=.3, flush=.3)
W_RW = dict(read=5, write=5)

p_all = mixed(W_ALL)
p_rw = mixed(W_RW)
p_conflict = mixed(dict(read=5, write=5, amo=.3, inv=.05, flush=.1), nsets=1, ntags=4, hot=.35)
p_lru = mixed(dict(read=6, write=4, amo=.8, inv=.15, flush=.1), nsets=2, ntags=4, hot=.3, n=160)
p_wb = mixed(dict(read=3, write=7, amo=.4, inv=.25, flush=.25), nsets=2, ntags=4, hot=.4)
p_amo = mixed(dict(read=3, write=4, amo=5, inv=.15, flush=.15), nsets=2, ntags=3, hot=.6)
p_inv = mixed(dict(read=4, write=5, amo=.5, inv=1.5, flush=.3), nsets=2, ntags=3, hot=.6)
p_flush = mixed(dict(read=3, write=6, amo=.4, inv=.4, flush=1.2), nsets=3, ntags=3, hot=.5)
p_harsh = mixed(W_ALL, kind='harsh')
p_calm = mixed(dict(read=6, write=5, amo=.4, inv=.1, flush=.1), kind='calm', hot=.85, n=160)
p_hitstream = mixed(dict(read=6, write=4), kind='calm', hot=.95, nsets=1, ntags=2, n=200)


def p_wide(cfg, rng):
  """every width at every offset, written over one another, then read back
  both before and after the line has been to memory"""
  g = Gen(cfg, rng, dict(read=6, write=7, amo=.3, inv=.4, flush=.3), nsets=1, ntags=3, hot=.7, same_word=.6)
  reqs = g.many(110)
  return Case([finish(g, reqs)], env(rng))


def p_dword(cfg, rng):
  """mostly double-word stores (32-bit ports)"""
  g = Gen(cfg, rng, dict(read=6, write=7, amo=.3, inv=.4, flush=.4), nsets=2, ntags=3, hot=.6,
          wlens=[3, 3, 3, 0, 1, 2], lens=None, same_word=.6)
  return Case([finish(g, g.many(110))], env(rng))


def p_tags(cfg, rng):
  """lines whose addresses differ in single bits anywhere in the tag, and
  all sets"""
  g = Gen(cfg, rng, dict(read=5, write=6, amo=.6, inv=.1, flush=.2), nsets=rng.choice([2, 4, 8]),
          ntags=rng.choice([2, 3, 6]), hot=.2)
  reqs = g.many(130)
  return Case([finish(g, reqs)], env(rng, rng.choice(['calm', 'mix'])))


def p_sweep(cfg, rng):
  """writes to every set, then everything read back after a FLUSH and INV"""
  g = Gen(cfg, rng, W_ALL, nsets=min(cfg.ns, 24), ntags=2, hot=.1)
  lines = list(g.pool.lines)
  rng.shuffle(lines)
  reqs = [g.rw(WRITE, line=l) for l in lines]
  for l in rng.sample(lines, min(len(lines), 30)):
    reqs.append(g.rw(rng.choice([READ, WRITE]), line=l))
  if rng.random() < .6:
    reqs.append(g.maint(rng.choice([INV, FLUSH])))
    for l in rng.sample(lines, min(len(lines), 30)):
      reqs.append(g.rw(rng.choice([READ, WRITE]), line=l))
  reqs.append(g.maint(FLUSH))
  if rng.random() < .5:
    reqs.append(g.maint(FLUSH))     # a second FLUSH finds nothing to do
  for l in rng.sample(lines, min(len(lines), 30)):
    reqs.append(g.rw(READ, line=l))
  return Case([reqs], env(rng))


def p_reset(cfg, rng):
  """resets at arbitrary cycles, from arbitrary power-up contents"""
  g = Gen(cfg, rng, dict(read=5, write=6, amo=1, inv=.3, flush=.5), nsets=2, ntags=3, hot=.5)
  reqs = g.many(140)
  e = env(rng)
  t, rs = 0, []
  for _ in range(rng.randrange(1, 6)):
    t += rng.choice([rng.randrange(3, 30), rng.randrange(20, 220)])
    rs.append(t)
  e.resets = rs
  return Case([finish(g, reqs)], e, rand_init=rng.getrandbits(30) | 1)


def p_powerup(cfg, rng):
  c = p_all(cfg, rng)
  c.rand_init = rng.getrandbits(30) | 1
  return c


def p_calmmiss(cfg, rng):
  """misses of every kind with nothing in the way"""
  g = Gen(cfg, rng, dict(read=5, write=5, amo=2, inv=.5, flush=.5), nsets=2, ntags=4 if cfg.asso == 2 else 3, hot=.35)
  reqs = g.many(110)
  if rng.random() < .4:
    gaps(reqs, rng)
  e = env(rng, 'calm')
  if rng.random() < .15:
    e.resets = sorted(rng.randrange(20, 500) for _ in range(2))
  return Case([finish(g, reqs)], e)


def p_calmsweep(cfg, rng):
  c = p_sweep(cfg, rng)
  c.env = env(rng, 'calm')
  return c


def p_quiet(cfg, rng):
  """long idle stretches between requests"""
  g = Gen(cfg, rng, W_ALL, nsets=2, ntags=3)
  reqs = g.many(50)
  for r in reqs:
    r.gap = rng.choice([0, 1, 4, 17, 40])
  return Case([finish(g, reqs, rb=False)], env(rng))


def p_block(cfg, rng):
  """responses or memory blocked for long stretches"""
  g = Gen(cfg, rng, W_ALL, nsets=2, ntags=3)
  e = Env(rng.getrandbits(30), p_resp=rng.choice([.08, .15, 1, 1]), p_mreq=rng.choice([.08, .15, 1, 1]),
          p_req=rng.choice([1, .5]), lat=rng.choice([(1, 1), (1, 30), (25, 25)]),
          idle=rng.choice(['rand', 'last', 'ones']), burst=rng.choice([.5, .9]))
  return Case([finish(g, g.many(70))], e)


def p_multi(cfg, rng):
  """several caches sharing memory, kept coherent by software: in each phase
  every word has one owner; between phases everybody FLUSHes, then INVs.
  Some words are only ever accessed by AMOs, from all caches at once."""
  nc = rng.choice([2, 2, 3])
  pool = Pool(cfg, rng, nsets=2, ntags=3)
  lines = pool.lines[:]
  words = [l + o for l in lines for o in range(0, cfg.lb, 4)]
  shared = set(rng.sample(words, max(1, len(words) // 5)))
  priv = [w for w in words if w not in shared]
  op = lambda: rng.getrandbits(cfg.obw)
  reqs = [[] for _ in range(nc)]
  ph = 0
  amolen = 0 if cfg.dbw == 32 else 4
  for _ in range(rng.randrange(2, 5)):
    own = [[] for _ in range(nc)]
    ro = []
    for w in priv:
      x = rng.random()
      if x < .25:
        ro.append(w)
      else:
        own[rng.randrange(nc)].append(w)
    for c in range(nc):
      seq = []
      for _ in range(rng.randrange(8, 22)):
        r = rng.random()
        if r < .15 and shared:
          seq.append(Req(rng.choice(AMOS), rng.choice(sorted(shared)), amolen, data_for(rng, 4), op()))
        elif r < .55 and own[c]:
          w = rng.choice(own[c])
          ln = rng.choice([1, 2, 4])
          off = rng.randrange(4 // ln) * ln
          seq.append(Req(WRITE, w + off, 0 if ln == 4 and cfg.dbw == 32 else ln, rng.getrandbits(cfg.dbw), op()))
        elif r < .8 and own[c]:
          w = rng.choice(own[c])
          ln = rng.choice([1, 2, 4])
          off = rng.randrange(4 // ln) * ln
          seq.append(Req(READ, w + off, 0 if ln == 4 and cfg.dbw == 32 else ln, 0, op()))
        elif ro:
          w = rng.choice(ro)
          seq.append(Req(READ, w, 0 if cfg.dbw == 32 else 4, 0, op()))
        if rng.random() < .04:
          seq.append(Req(rng.choice([INV, FLUSH]), 0, 0, 0, op()))
      for q in seq:
        q.barrier = ph
        if rng.random() < .1:
          q.gap = rng.randrange(1, 6)
      f = Req(FLUSH, 0, 0, 0, op(), barrier=ph)
      reqs[c] += seq + [f]
    ph += 1
    for c in range(nc):
      reqs[c].append(Req(INV, 0, 0, 0, op(), barrier=ph))
    ph += 1
  # the last word: everybody reads everything that is not AMO-only
  for c in range(nc):
    for w in rng.sample(priv, min(len(priv), 20)):
      reqs[c].append(Req(READ, w, 0 if cfg.dbw == 32 else 4, 0, op(), barrier=ph))
  return Case(reqs, env(rng), multi=1, phases=True, ncaches=nc)


def p_long(cfg, rng):
  """many requests without a reset, with waits of hundreds of cycles in between"""
  g = Gen(cfg, rng, dict(read=5, write=5, amo=.7, inv=.08, flush=.08), nsets=min(cfg.ns, 4), ntags=4, hot=.5)
  n = 1100 if cfg.lb <= 16 else 600
  reqs = g.many(rng.randrange(n // 2, n))
  kind = rng.choice(['calm', 'waits', 'waits'])
  if kind == 'calm':
    return Case([finish(g, reqs)], env(rng, 'calm'))
  for r in reqs:
    if rng.random() < .01:
      r.gap = rng.choice(drive_LONG)
  e = env(rng, 'mix')
  e.nostall = 0
  e.rare = rng.choice([.0005, .002, .004])
  return Case([finish(g, reqs)], e)


def p_calmlong(cfg, rng):
  """many requests with nothing in the way"""
  g = Gen(cfg, rng, dict(read=5, write=5, amo=.5, inv=.05, flush=.05), nsets=min(cfg.ns, 4), ntags=3, hot=.7)
  n = 1100 if cfg.lb <= 16 else 600
  return Case([finish(g, g.many(n))], env(rng, 'calm'))


def p_tour(cfg, rng, k):
  """walk k of the policy tour: together the walks take every transition of
  every reachable policy state of one set (spec/CacheTour)"""
  import tour
  w = tour.walks(cfg.asso)[k]
  g = Gen(cfg, rng, W_ALL, nsets=1, ntags=3, hot=0)
  lines = g.pool.lines
  nw = cfg.lb // 4
  words = rng.sample(range(nw), 2) if nw > 2 else [0, 1]
  narrow = [n for n in read_lens(cfg) if n and n <= 4] + ([0] if cfg.dbw == 32 else [])
  reqs = []
  for q in w:
    if q['op'] in ('inv', 'flush'):
      reqs.append(g.maint(INV if q['op'] == 'inv' else FLUSH))
      continue
    l = lines[q['tag'] - 1]
    if q['op'] == 'read':
      reqs.append(g.rw(READ, line=l))
    elif q['op'] == 'amo':
      r = g.amo()
      r.addr = l + rng.choice(words) * 4
      reqs.append(r)
    else:
      ln = rng.choice(narrow)
      n = ln or 4
      off = rng.randrange(4 // n) * n
      reqs.append(Req(WRITE, l + 4 * words[q['w'] - 1] + off, ln, data_for(rng, cfg.db), g.opaque()))
  e = env(rng, 'calm' if k % 3 == 0 else 'mix')
  return Case([finish(g, reqs, rb=False)], e)


PIPE = {(1, 'p_pipe'): 'CachePipe1', (2, 'p_pipe'): 'CachePipe2', (1, 'p_pipew'): 'CachePipe1w',
        (1, 'p_pipes'): 'CachePipe1s', (2, 'p_pipes'): 'CachePipe2s'}


def pipe_walks(prof, cfg):
  import pipe
  return pipe.count(PIPE[cfg.asso, prof])


def _scripted(cfg, rng, parts):
  """parts: walks (lists of steps) run one after another with a reset in
  between"""
  g = Gen(cfg, rng, W_ALL, nsets=cfg.ns, ntags=3, hot=0)
  base = {}
  for l in g.pool.lines:
    s = (l // cfg.lb) % cfg.ns
    base.setdefault(s, []).append(l)
  nw = cfg.lb // 4
  words = rng.sample(range(nw), 2)
  narrow = [n for n in read_lens(cfg) if n and n <= 4] + ([0] if cfg.dbw == 32 else [])
  reqs, script = [], []
  for w in parts:
    if script:
      script.append(None)
    for q, ok, md, pred, ctx in w:
      script.append([1 if q else 0, ok, md, pred])
      if not q:
        continue
      op, tag, s, x = q
      if op in ('inv', 'flush'):
        reqs.append(g.maint(INV if op == 'inv' else FLUSH))
        continue
      a = base[s][tag] + 4 * words[x - 1]
      if op == 'amo':
        r = g.amo()
        r.addr = a
        reqs.append(r)
        continue
      ln = rng.choice(narrow)
      n = ln or 4
      reqs.append(Req(READ if op == 'read' else WRITE, a + rng.randrange(4 // n) * n, ln,
                      data_for(rng, cfg.db) if op == 'write' else 0, g.opaque()))
  for r in reqs:
    r.gap = r.after = 0
  e = env(rng, 'calm')
  e.nostall = 0
  e.script = script
  return Case([finish(g, reqs, rb=False)], e)


def p_pipe(cfg, rng, k, prof='p_pipe'):
  """walk k of the pipeline tour: the outside does in every cycle what the
  walk says (spec/CachePipe)"""
  import pipe
  return _scripted(cfg, rng, [pipe.walk(PIPE[cfg.asso, prof], k)])


def p_pipereset(cfg, rng):
  """resets in the middle of everything: beginnings of walks, each cut off by
  a reset in some context of the pipeline, and one more walk after the last"""
  import pipe
  name = PIPE[cfg.asso, 'p_pipe']
  ctx = pipe.contexts(name)
  parts = []
  for c in rng.sample(sorted(ctx), 5):
    a, b = min(rng.sample(ctx[c], min(3, len(ctx[c]))), key=lambda x: x[1])
    parts.append(pipe.walk(name, a)[:b + 1])
  parts.append(pipe.walk(name, rng.randrange(pipe.count(name)))[:150])
  return _scripted(cfg, rng, parts)
