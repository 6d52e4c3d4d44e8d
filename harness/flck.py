"""C19: the functional model (BlockingCacheFL.ModelCache) is a behaviour of
the same specification as the hardware.

The request streams of the other profiles are fed to ModelCache call by call;
the responses it predicts are judged by spec/CacheTrace (the clauses about
responses and hits; a functional model has no memory port)."""
import random
import dut, drive, engine, pool, profiles
from dut import Cfg, DutError
from profiles import G
from drive import READ, WRITE, INV, FLUSH, init_byte, bl

PROFS = ['p_all', 'p_conflict', 'p_lru', 'p_amo', 'p_inv', 'p_tags', 'p_wide', 'p_flush']
CLAUSES = {'rec.request', 'proto.type', 'proto.opaque', 'proto.len', 'proto.zero', 'proto.unsolicited', 'live.response',
           'data.read', 'data.amo', 'hit.false_miss', 'hit.false_hit', 'hit.nonrw'}


def spread(a, lb, ns, banks, bank):
  """insert the bank number between the offset and the index"""
  return (a // lb * banks + bank) * lb + a % lb


def fl_case(item):
  tid, prof, key, seed, banks = item
  cfg = Cfg(*key)
  case = engine.mk_case(prof, cfg, seed)
  rng = random.Random(seed)
  # FL has no double-word store, and takes addresses of 32 bits
  reqs = [r for q in case.reqs for r in q if not (r.ty == WRITE and r.len == 3) and r.ty != 2]
  pad = cfg.abw
  try:
    cq, cp, mq, mp = dut.mk_types(cfg)
    from blocking_cache.BlockingCacheFL import ModelCache
    from pymtl3 import Bits32, Bits4, mk_bits
    lines = {}
    f = (lambda a: spread(a, cfg.lb, cfg.ns, banks, seed % banks)) if banks else (lambda a: a)
    for r in reqs:
      if r.ty not in (INV, FLUSH):
        l = r.addr - r.addr % cfg.lb
        lines.setdefault(l, None)
    # memory as the specification has it, for every line that is touched
    mem = []
    for l in lines:
      for k in range(0, cfg.lb, 4):
        a = f(l + k)
        if a < 1 << 32:
          mem += [a, sum(init_byte(l + k + j) << (8 * j) for j in range(4))]
    m = ModelCache(cfg.nbytes, cfg.asso, banks, cq, cp, mq, mp, mem)
    A = cq.get_field_type('addr')
    D = cq.get_field_type('data')
    O = cq.get_field_type('opaque')
    L = cq.get_field_type('len')
    ev, c = [], 0
    cpf, cqf = dut.Fmt(cp), dut.Fmt(cq)
    ev.append(dict(k='rst', cid=0, c=0))
    for r in reqs:
      if f(r.addr) >> 32:
        continue
      n0 = len(m.get_transactions())
      a, d, o, ln = A(f(r.addr)), D(r.data), O(r.op), L(r.len)
      if r.ty == READ:
        m.read(a, o, ln)
      elif r.ty == WRITE:
        m.write(a, d, o, ln)
      elif r.ty == INV:
        m.invalidate(o)
      elif r.ty == FLUSH:
        m.flush(o)
      else:
        m.amo(a, d, o, ln, Bits4(r.ty))
      t = m.get_transactions()
      if len(t) != n0 + 2:
        raise ValueError('%d messages for one call' % (len(t) - n0))
      y, x = t[n0], t[n0 + 1]
      # the call as made and as recorded (what INV and FLUSH carry besides is up to the model)
      mt = r.ty in (INV, FLUSH)
      nd = 0 if r.ty == READ or mt else cfg.db if r.ty == WRITE else 4
      rq = [[r.ty, r.op, [0, 0] if mt else [f(r.addr) >> 16, f(r.addr) & 0xffff], 0 if mt else r.len, bl(r.data & ((1 << 8 * nd) - 1), nd)],
            [int(y.type_), int(y.opaque), [0, 0] if mt else [int(y.addr) >> 16, int(y.addr) & 0xffff],
             0 if mt else int(y.len), bl(int(y.data) & ((1 << 8 * nd) - 1), nd)]]
      if mt:
        r.len = 0      # the model's INV and FLUSH have none
      ev.append(dict(rq=rq, k='acc', cid=0, c=c, w=0, ty=r.ty, op=r.op, ad=[r.addr >> 16, r.addr & 0xffff], len=r.len,
                     dat=bl(r.data, cfg.db), chk=1))
      ev.append(dict(k='rs', cid=0, c=c, ty=int(x.type_), op=int(x.opaque), te=int(x.test), len=int(x.len),
                     dat=bl(int(x.data), cfg.db), r=1))
      c += 1
    ev.append(dict(k='end', cid=0, c=c, why='done'))
    return dict(id=tid, cfg=dict(cfg.rec(), nc=1, multi=0, nostall=0), ev=ev)
  except Exception as e:
    raise DutError('ModelCache of %r: %s: %s' % (cfg, type(e).__name__, str(e)[:400]))


def check(cid, tier, seed, work):
  q = tier == 'quick'
  items = []
  geos = 'abcdefghijkp' if q else 'abcdefghijklmpqr'
  for prof in PROFS:
    for c in geos:
      for banks in (0, 4):
        for k in range((6 if banks == 0 else 2) * (1 if q else 8)):
          cfg = G[c]
          s = engine.case_seed(seed, cid, prof, cfg.key(), banks, k)
          items.append(('fl.%s.%r.k%d.%d' % (prof, cfg, banks, k), prof, cfg.key(), s, banks))
  r = pool.run(fl_case, items, 'CacheTrace', work, 'fl')
  viol = []
  for it, cl in sorted(r['viol']):
    hit = [c for c in cl if c[0] in CLAUSES or c[0].startswith('exception')]
    if hit:
      viol.append(dict(property=cid, trace=it[0], profile=it[1], geometry=list(it[2]), seed=it[3], banks=it[4], replay='flck',
                       backend='fl', clauses=sorted(hit, key=lambda c: c[1])))
  cov = dict(states=r['states'], transitions=r['gen'], traces_validated_against_impl=r['n'], events=r['events'],
             clauses=sorted(CLAUSES), profiles=PROFS, samples=[list(items[0])])
  return (1 if viol else 0), cov, viol


def replay(v):
  return 'CacheTrace', lambda: fl_case((v['trace'], v['profile'], v['geometry'], v['seed'], v['banks']))
