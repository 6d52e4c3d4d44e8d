"""C22: every supported geometry is a correct cache.

Geometries are drawn at random from the whole supported space; each is
elaborated (and translated and compiled) afresh and judged by all clauses of
spec/CacheTrace."""
import random
import engine, checks
from dut import Cfg

# corners of the space, always included
CORNERS = [Cfg(64, 32, 16, 1), Cfg(128, 32, 16384, 2), Cfg(512, 128, 4096, 2, obw=1, abw=47), Cfg(64, 64, 32, 2, obw=64, abw=6),
           Cfg(512, 32, 128, 1, obw=3, abw=8), Cfg(128, 128, 64, 2, abw=20)]
MOST = 40        # bits; a 47-bit address is the widest the specification's integers can hold


def draw(rng):
  clw = rng.choice([64, 64, 128, 128, 256, 512])
  dbw = rng.choice([d for d in (32, 64, 128) if d <= clw])
  asso = rng.choice([1, 2])
  sets = rng.choice([2, 2, 4, 4, 8, 16, 32, 64])
  nbytes = clw // 8 * asso * sets
  low = (clw // 8 * sets - 1).bit_length() + 1
  abw = rng.choice([32, 32, rng.randrange(low, 48), rng.randrange(33, 48), low])
  obw = rng.choice([8, 8, 1, 2, 3, 5, 7, 9, 12, 16, 24, 32, 33, 64])
  return Cfg(clw, dbw, nbytes, asso, obw=obw, abw=abw)


def geometries(seed, n):
  rng = random.Random(engine.case_seed(seed, 'geometries'))
  out = list(CORNERS)
  while len(out) < n:
    c = draw(rng)
    if c.key() not in [x.key() for x in out]:
      out.append(c)
  return out


def check(cid, tier, seed, work):
  q = tier == 'quick'
  geos = geometries(seed, 18 if q else 150)
  plan = []
  for k, c in enumerate(geos):
    n = 10 if q else 40
    plan += [('p_all', c, 'v', n), ('p_sweep', c, 'v', n // 2), ('p_wide', c, 'v', n // 2), ('p_tags', c, 'v', n // 2),
             ('p_harsh', c, 'v', n // 2)]
    if c.nbytes <= 512 and (not q or k % 3 == 0):
      plan.append(('p_all', c, 'p', 1))
  res = engine.run_plan(plan, seed, work, label=cid)
  clauses = checks.FUNC | checks.LIVE | checks.FLOW | checks.TIME
  viol = []
  for tid, prof, key, backend, s, cl in sorted(res['fails']):
    hit = [c for c in cl if c[0] in clauses or c[0].startswith('exception')]
    if hit:
      viol.append(dict(property=cid, trace=tid, profile=prof, geometry=list(key), backend=backend, seed=s,
                       clauses=sorted(hit, key=lambda c: c[1])))
  cov = dict(states=res['states'], transitions=res['gen'], traces_validated_against_impl=res['n'],
             geometries=[repr(c) for c in geos], geometry_count=len(geos), stimulus=res['st'], clauses=sorted(clauses),
             verilog_build_errors=res['build_errors'], samples=res['samples'])
  return (1 if viol else 0), cov, viol
