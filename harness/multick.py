"""C24: caches of different geometry in one design.

One PyMTL3 component containing several caches, neighbours differing in one
parameter, is translated to Verilog once.  Each cache's module is then picked
out of that one file by its instance name, driven on its own and judged by
spec/CacheTrace exactly as a cache that was translated alone.
"""
import os, re, random, shutil, tempfile
import multiprocessing as mp
import dut, engine, pool
from dut import Cfg, DutError

FIELDS = ('clw', 'dbw', 'nbytes', 'asso', 'obw', 'abw')


def group(base, **alts):
  """base and the geometries that differ from it in exactly one parameter"""
  out = [base]
  for f, vs in sorted(alts.items()):
    for v in vs:
      k = dict(zip(FIELDS, base.key()))
      k[f] = v
      out.append(Cfg(**k))
  return out


GROUPS = {
  'a': group(Cfg(128, 32, 64, 2), clw=[64], dbw=[64], nbytes=[128], asso=[1], obw=[5], abw=[27]),
  'd': group(Cfg(128, 64, 128, 1), clw=[256], dbw=[32, 128], nbytes=[64], asso=[2], obw=[9, 1], abw=[32, 33]),
  'f': group(Cfg(64, 64, 64, 2, 3, 40), clw=[128], dbw=[32], nbytes=[32], asso=[1], obw=[4], abw=[39]),
  'k': group(Cfg(256, 128, 256, 2, 16, 32), clw=[128, 512], dbw=[64], nbytes=[128], asso=[1], obw=[8], abw=[16]),
}


def translate(cfgs):
  """-> Verilog text, [module name of cache k]"""
  tmp, old = tempfile.mkdtemp(prefix='vmulti_'), os.getcwd()
  try:
    os.chdir(tmp)
    from pymtl3 import Component, InPort, OutPort, connect
    from pymtl3.passes.backends.verilog import VerilogTranslationPass, VerilogPlaceholderPass
    from blocking_cache.BlockingCacheRTL import BlockingCacheRTL

    class Caches(Component):
      def construct(s, cfgs):
        for k, c in enumerate(cfgs):
          ts = dut.mk_types(c)
          x = BlockingCacheRTL(*ts, c.nbytes, c.asso)
          setattr(s, 'c%d' % k, x)
          i, o = x.mem_minion_ifc, x.mem_master_ifc
          for n, t, p, out in (('cq', ts[0], i.req, 0), ('cp', ts[1], i.resp, 1), ('mq', ts[2], o.req, 1), ('mp', ts[3], o.resp, 0)):
            a, b = (OutPort, InPort) if out else (InPort, OutPort)
            for f, port in (('msg', a(t)), ('en', a()), ('rdy', b())):
              nm = '%s_%s_%d' % (n, f, k)
              setattr(s, nm, port)
              connect(getattr(s, nm), getattr(p, f))
    m = Caches(cfgs)
    m.elaborate()
    m.apply(VerilogPlaceholderPass())
    m.set_metadata(VerilogTranslationPass.enable, True)
    m.apply(VerilogTranslationPass())
    text = open(m.get_metadata(VerilogTranslationPass.translated_filename)).read()
    topname = m.get_metadata(VerilogTranslationPass.translated_top_module)
  except Exception as e:
    raise DutError('translation of %r together failed: %s: %s' % (cfgs, type(e).__name__, str(e)[:500]))
  finally:
    os.chdir(old)
    shutil.rmtree(tmp, ignore_errors=True)
  bare = re.sub(r'//[^\n]*', '', text)
  tops = []
  for k in range(len(cfgs)):
    mod = re.findall(r'^\s*(\w+)\s+c%d\s*\(' % k, bare, re.M)
    if len(mod) != 1:
      raise DutError('cache c%d is instantiated %d times in the translation of %r' % (k, len(mod), cfgs))
    tops.append(mod[0])
  # Verilator wants its top module instantiated nowhere: drop the enclosing
  # component, which is nothing but wires
  n = len(text)
  text = re.sub(r'^module %s\b.*?^endmodule[^\n]*' % topname, '', text, flags=re.M | re.S)
  assert len(text) < n
  return text, tops


def order(g, turn, seed):
  """the group in the order its caches appear in the design"""
  cfgs = list(GROUPS[g])
  random.Random(seed).shuffle(cfgs)
  return cfgs if turn == 0 else cfgs[::-1]


def build(a):
  g, turn, seed, k, text, top = a
  try:
    return a[:4], dut.compile_so(text, top, dut.SHIM), None
  except Exception as e:
    return a[:4], None, str(e)[:700]


def case(item):
  tid, g, turn, gseed, k, key, prof, seed, so = item
  cfg = Cfg(*key)
  # any Verilog back end label serves: the shared object is given
  tr = engine.run_case(engine.mk_case(prof, cfg, seed), cfg, 'v', tid, so)
  tr.pop('cycles', None)
  return tr


def check(cid, tier, seed, work):
  import checks
  q = tier == 'quick'
  rng = random.Random('%s %d' % (cid, seed))
  gseed = rng.getrandbits(30)
  turns = [(g, t) for g in (['a', 'd'] if q else sorted(GROUPS)) for t in (0, 1)]
  profs = [('p_all', 4), ('p_harsh', 4), ('p_amo', 2), ('p_wide', 2)] if q else [
      (p, 12) for p in ('p_all', 'p_harsh', 'p_amo', 'p_wide', 'p_inv', 'p_flush', 'p_reset', 'p_sweep', 'p_powerup')]
  dut.runtime()
  viol, jobs, items = [], [], []
  for g, t in turns:
    cfgs = order(g, t, gseed)
    try:
      text, tops = translate(cfgs)
    except DutError as e:
      viol.append(dict(property=cid, trace='group %s in order %r' % (g, cfgs), clauses=[['exception: ' + str(e), 0]]))
      continue
    jobs += [(g, t, gseed, k, text, tops[k]) for k in range(len(cfgs))]
  with mp.get_context('fork').Pool(engine.NPROC) as p:
    built = p.map(build, jobs, chunksize=1)
  for (g, t, gs, k), so, err in built:
    cfg = order(g, t, gs)[k]
    if err:
      viol.append(dict(property=cid, trace='c%d (%r) of group %s, order %d' % (k, cfg, g, t), geometry=list(cfg.key()),
                       clauses=[['exception: Verilog does not compile: ' + err, 0]]))
      continue
    for prof, n in profs:
      for j in range(n):
        items.append(('multi.%s%d.c%d.%r.%s.%d' % (g, t, k, cfg, prof, j), g, t, gs, k, cfg.key(), prof,
                      engine.case_seed(seed, cid, g, t, k, prof, j), so))
  r = pool.run(case, items, 'CacheTrace', work, 'multi')
  clauses = checks.FUNC | checks.LIVE | checks.FLOW
  for it, cl in sorted(r['viol']):
    hit = [c for c in cl if c[0] in clauses or c[0].startswith('exception')]
    if hit:
      viol.append(dict(property=cid, trace=it[0], replay='multick', item=list(it[:-1]), geometry=list(it[5]),
                       clauses=sorted(hit, key=lambda c: c[1])))
  cov = dict(states=r['states'], transitions=r['gen'], traces_validated_against_impl=r['n'], events=r['events'],
             designs=len(turns), caches=len(jobs), profiles=[p for p, _ in profs],
             clauses=sorted(clauses), samples=[list(map(str, it[:-1])) for it in items[:2]])
  return (1 if viol else 0), cov, viol


def replay(v):
  tid, g, t, gs, k, key, prof, seed = v['item']
  def rec():
    text, tops = translate(order(g, t, gs))
    dut.runtime()
    return case((tid, g, t, gs, k, key, prof, seed, dut.compile_so(text, tops[k], dut.SHIM)))
  return 'CacheTrace', rec
