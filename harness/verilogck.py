"""C18: the generated Verilog is the cache.

 1. lockstep: PyMTL3 simulation and generated Verilog stepped with the same
    inputs, every cycle compared by spec/Lockstep.
 2. what blocking_cache/translate.py writes (all options, no options, with
    --replace-sram) driven on its own and judged by spec/CacheTrace.
"""
import os
import dut, drive, engine, pool
from dut import Cfg, PyDut, VDut, DutError
from profiles import G

FUNC = None


class LockDut:
  """Both back ends behind one step()."""
  def __init__(s, cfg, so):
    s.p, s.v = PyDut(cfg), VDut(cfg, so)
    for n in ('cfg', 'cq', 'cp', 'mq', 'mp'):
      setattr(s, n, getattr(s.p, n))
    s.nr, s.nm = (s.cp.nbits + 7) // 8, (s.mq.nbits + 7) // 8
    s.log = []
  def obs(s, o):
    rr, re, rm, me, mm, mr = o
    return dict(rr=rr, re=re, rm=list(rm.to_bytes(s.nr, 'little')) if re else [],
                me=me, mm=list(mm.to_bytes(s.nm, 'little')) if me else [], mr=mr)
  def step(s, *a):
    o = s.p.step(*a)
    # the Verilog gets the request's en exactly when the simulation took it
    q = s.v.step(*a)
    s.log.append(dict(p=s.obs(o), v=s.obs(q)))
    return o


def lock_case(item):
  tid, prof, key, seed, so, budget = item
  cfg = Cfg(*key)
  case = engine.mk_case(prof, cfg, seed)
  d = LockDut(cfg, so)
  drive.run([d], case.reqs, case.env, tid, budget=budget)
  return dict(id=tid, ev=d.log)


def check(cid, tier, seed, work):
  import checks
  q = tier == 'quick'
  wide = 'abcdefhijmnpr' if not q else 'acdefnh'
  profs = ['p_all', 'p_harsh'] if q else ['p_all', 'p_harsh', 'p_reset', 'p_block', 'p_flush', 'p_inv', 'p_amo', 'p_wide']
  cfgs = [(G[c], 'v') for c in wide]
  sos, errs = engine.build_all(cfgs)
  if 'runtime' in errs:
    raise RuntimeError(errs['runtime'])
  items, viol = [], []
  for cfg, b in cfgs:
    so = sos[cfg.key(), b]
    if not so:
      viol.append(dict(property=cid, trace='translation of %r' % cfg, geometry=list(cfg.key()), backend='v',
                       clauses=[['exception: ' + errs[repr(cfg)], 0]]))
      continue
    for prof in profs:
      for k in range(1 if q else 3):
        s = engine.case_seed(seed, cid, 'lock', prof, cfg.key(), k)
        items.append(('lock.%s.%r.%d' % (prof, cfg, k), prof, cfg.key(), s, so, 700 if q else 1500))
  r = pool.run(lock_case, items, 'Lockstep', work, 'lock')
  for it, cl in sorted(r['viol']):
    viol.append(dict(property=cid, trace=it[0], profile=it[1], geometry=list(it[2]), seed=it[3], budget=it[5], replay='verilogck', backend='v',
                     clauses=sorted(cl, key=lambda c: c[1])))
  # the command line tool
  K, D, B = G['k'], Cfg(128, 32, 4096, 1), Cfg(128, 32, 8192, 2)
  n = 14 if q else 120
  plan = [('p_all', K, 'C', n), ('p_all', K, 's', n), ('p_harsh', K, 's', n), ('p_harsh', D, 's', n), ('p_sweep', B, 's', n),
          ('p_powerup', D, 's', n)]
  for c in ('chi' if q else 'abcdefghijlmnopqr'):
    # no macro fits: the wrapper's generic branch
    plan += [('p_all', G[c], 's', n), ('p_harsh', G[c], 's', n // 2)]
  for c in ('acdehn' if q else 'abcdefghijlmnopqr'):
    plan.append(('p_all', G[c], 'c', n))
    if not q:
      plan.append(('p_harsh', G[c], 'c', n))
  if not q:
    plan += [(p, x, 's', n) for p in ('p_inv', 'p_flush', 'p_reset', 'p_amo', 'p_block') for x in (K, D, B)]
  res = engine.run_plan(plan, seed, work, label=cid)
  clauses = checks.FUNC | checks.LIVE | checks.FLOW
  for tid, prof, key, backend, s, cl in sorted(res['fails']):
    hit = [c for c in cl if c[0] in clauses or c[0].startswith('exception')]
    if hit:
      viol.append(dict(property=cid, trace=tid, profile=prof, geometry=list(key), backend=backend, seed=s,
                       clauses=sorted(hit, key=lambda c: c[1])))
  cov = dict(states=r['states'] + res['states'], transitions=r['gen'] + res['gen'],
             traces_validated_against_impl=r['n'] + res['n'], lockstep_cycles=r['events'],
             lockstep_traces=r['n'], tool_traces=res['n'], stimulus=res['st'],
             clauses=['lock.*'] + sorted(clauses), samples=res['samples'])
  return (1 if viol else 0), cov, viol


def replay(v):
  if 'seed' not in v or v['backend'] != 'v':
    def rec():
      cfg = Cfg(*v['geometry'])
      return engine.run_case(engine.mk_case(v['profile'], cfg, v['seed']), cfg, v['backend'], v['trace'],
                             dut.build(cfg, v['backend']))
    return 'CacheTrace', rec
  return 'Lockstep', lambda: lock_case((v['trace'], v['profile'], v['geometry'], v['seed'],
                                        dut.build(Cfg(*v['geometry']), 'v'), v['budget']))
