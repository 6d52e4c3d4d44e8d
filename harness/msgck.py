"""C25: one layout and one numbering for every message.

 1. message objects of every width, packed and unpacked by the code, and the
    numbers behind the names of the transaction types: judged by spec/MsgTrace.
 2. the generated Verilog driven through bits placed where the specification
    says (not where the message class says), judged by spec/CacheTrace.
"""
import random
import dut, engine, pool, checks
from dut import Cfg, VDut, DutError
from profiles import G

DBWS, CLWS = (32, 64, 128), (64, 128, 256, 512)
NAMES = ('READ WRITE WRITE_INIT AMO AMO_ADD AMO_AND AMO_OR AMO_SWAP AMO_MIN AMO_MINU AMO_MAX AMO_MAXU AMO_XOR '
         'LR SC INV FLUSH').split()


def layout(kind, obw, abw, dbw, mask):
  return ([('type_', 4), ('opaque', obw)] + ([('addr', abw)] if kind == 'req' else [('test', 2)]) +
          [('len', (dbw // 8 - 1).bit_length())] + ([('wr_mask', dbw // 32)] if mask else []) + [('data', dbw)])


class SpecFmt(dut.Fmt):
  def __init__(s, lay):
    s.cls, s.fields, pos = None, {}, 0
    for n, w in reversed(lay):
      s.fields[n] = (pos, w)
      pos += w
    s.nbits = pos


class SpecDut(VDut):
  def _fmts(s, cfg):
    s.cfg = cfg
    s.cq, s.cp = [SpecFmt(layout(k, cfg.obw, cfg.abw, cfg.dbw, 0)) for k in ('req', 'resp')]
    s.mq, s.mp = [SpecFmt(layout(k, cfg.obw, cfg.abw, cfg.clw, 1)) for k in ('req', 'resp')]


def bits(v, n):
  return [(v >> k) & 1 for k in reversed(range(n))]


def msg_case(item):
  tid, obw, abw, dbw, mask, seed, n = item
  rng = random.Random(seed)
  ev = []
  try:
    from pymtl3 import mk_bits
    from mem_ifcs.MemMsg import mk_mem_msg
    for kind, cls in zip(('req', 'resp'), mk_mem_msg(obw, abw, dbw, has_wr_mask=bool(mask))):
      fs = {f: t.nbits for f, t in cls.__bitstruct_fields__.items()}
      for k in range(n):
        if k % 2:
          total = cls.nbits
          raw = rng.getrandbits(total)
          m = cls.from_bits(mk_bits(total)(raw))
          val = {f: int(getattr(m, f)) for f in fs}
        else:
          val = {f: rng.getrandbits(w) for f, w in fs.items()}
          m = cls(**{f: mk_bits(fs[f])(v) for f, v in val.items()})
          b = m.to_bits()
          total, raw = b.nbits, int(b)
        ev.append(dict(k='msg', kind=kind, obw=obw, abw=abw, dbw=dbw, mask=mask, raw=bits(raw, total),
                       val={f: bits(val[f], fs[f]) for f in fs}))
  except Exception as e:
    raise DutError('messages %r: %s: %s' % (item, type(e).__name__, str(e)[:400]))
  return dict(id=tid, ev=ev)


def type_case(item):
  ev = []
  try:
    from mem_ifcs import MemMsg
    from constants import constants
    for n in NAMES:
      ev.append(dict(k='type', name=n, n=int(getattr(MemMsg.MemMsgType, n))))
      ev.append(dict(k='type', name=n, n=int(getattr(MemMsg, 'MemMsgType_' + n))))
      c = 'INIT' if n == 'WRITE_INIT' else n
      if hasattr(constants, c):
        ev.append(dict(k='type', name=c, n=int(getattr(constants, c))))
  except Exception as e:
    raise DutError('transaction types: %s: %s' % (type(e).__name__, str(e)[:400]))
  return dict(id=item[0], ev=ev)


def any_case(item):
  return type_case(item) if len(item) == 1 else msg_case(item)


def cache_case(item):
  tid, key, prof, seed, so = item
  cfg = Cfg(*key)
  case = engine.mk_case(prof, cfg, seed)
  import drive
  tr = drive.run([SpecDut(cfg, so)], case.reqs, case.env, tid)
  tr.pop('cycles', None)
  return tr


def check(cid, tier, seed, work):
  q = tier == 'quick'
  rng = random.Random('%s %d' % (cid, seed))
  items = [('types',)]
  for dbw in DBWS + CLWS:
    for mask in (0, 1):
      for obw, abw in [(8, 32), (1, 6), (64, 47)] + [(rng.randrange(1, 65), rng.randrange(6, 65)) for _ in range(3 if q else 40)]:
        items.append(('msg.o%d.a%d.d%d.m%d' % (obw, abw, dbw, mask), obw, abw, dbw, mask, rng.getrandbits(30), 8))
  items = sorted(dict((i[0], i) for i in items).values())
  r = pool.run(any_case, items, 'MsgTrace', work, 'msg')
  viol = [dict(property=cid, trace=it[0], replay='msgck', item=list(it), clauses=sorted(cl)) for it, cl in sorted(r['viol'])]
  cfgs = [G[c] for c in ('adejn' if q else 'abcdefghijlmnopqr')] + [Cfg(512, 128, 256, 2, obw=31, abw=41)]
  sos, errs = engine.build_all([(c, 'v') for c in cfgs])
  if 'runtime' in errs:
    raise RuntimeError(errs['runtime'])
  runs = []
  for cfg in cfgs:
    so = sos[cfg.key(), 'v']
    if not so:
      viol.append(dict(property=cid, trace='translation of %r' % cfg, clauses=[['exception: ' + errs[repr(cfg)], 0]]))
      continue
    for prof in ('p_all', 'p_harsh', 'p_wide'):
      for k in range(3 if q else 20):
        runs.append(('port.%r.%s.%d' % (cfg, prof, k), cfg.key(), prof, engine.case_seed(seed, cid, prof, cfg.key(), k), so))
  r2 = pool.run(cache_case, runs, 'CacheTrace', work, 'port')
  clauses = checks.FUNC | checks.LIVE | checks.FLOW
  for it, cl in sorted(r2['viol']):
    hit = [c for c in cl if c[0] in clauses or c[0].startswith('exception')]
    if hit:
      viol.append(dict(property=cid, trace=it[0], replay='msgck', item=list(it[:-1]), geometry=list(it[1]),
                       clauses=sorted(hit, key=lambda c: c[1])))
  cov = dict(states=r['states'] + r2['states'], transitions=r['gen'] + r2['gen'],
             traces_validated_against_impl=r['n'] + r2['n'], messages=r['events'], port_events=r2['events'],
             clauses=['msg.fields', 'msg.width', 'msg.layout', 'msg.type'] + sorted(clauses),
             samples=[list(map(str, it[:5])) for it in items[:2] + runs[:1]])
  return (1 if viol else 0), cov, viol


def replay(v):
  it = v['item']
  if it[0].startswith('port.'):
    return 'CacheTrace', lambda: cache_case((it[0], it[1], it[2], it[3], dut.build(Cfg(*it[1]), 'v')))
  return 'MsgTrace', lambda: any_case(tuple(it))
