"""Turns profiles into recorded traces and TLC verdicts, on all cores."""
import os, re, sys, json, random, time, tempfile, shutil, hashlib, traceback
import concurrent.futures as cf
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import dut, drive, tlc, profiles
from dut import Cfg, PyDut, VDut, DutError, BuildError
from drive import Req, Env

PY_BUDGET = 1200
VERILOG = 'vcCs'    # back ends run through Verilator (dut.build)
TOURS = ('p_tour', 'p_pipe', 'p_pipew', 'p_pipes')     # numbered walks rather than random cases
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


def case_seed(*parts):
  return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], 'big')


def mk_case(prof, cfg, seed):
  rng = random.Random(seed)
  if prof == 'p_tour':
    return profiles.p_tour(cfg, rng, seed % 10000)
  if prof in TOURS:
    return profiles.p_pipe(cfg, rng, seed % 10000, prof)
  return getattr(profiles, prof)(cfg, rng)


def run_case(case, cfg, backend, tid, so=None):
  if backend in VERILOG:
    ds = [VDut(cfg, so, rand_init=(case.rand_init + k) if case.rand_init else 0) for k in range(case.ncaches)]
  else:
    ds = [PyDut(cfg) for _ in range(case.ncaches)]
  # the slow back end gets a budget of cycles, after which nothing stalls it
  # any more (so a run still ends with every request answered)
  return drive.run(ds, case.reqs, case.env, tid, multi=case.multi, phases=case.phases,
                   budget=PY_BUDGET if backend == 'p' else None)


def stats_of(tr, st):
  for e in tr['ev']:
    k = e['k']
    st['events'] = st.get('events', 0) + 1
    if k == 'acc':
      n = {0: 'reads', 1: 'writes', 2: 'inits', 14: 'invs', 15: 'flushes'}.get(e['ty'], 'amos')
      st[n] = st.get(n, 0) + 1
    elif k == 'mq':
      n = {0: 'line_reads', 1: 'line_writes'}.get(e['ty'], 'mem_amos')
      st[n] = st.get(n, 0) + 1
    elif k == 'rst':
      st['resets'] = st.get('resets', 0) + 1
    elif k == 'rs' and e['te']:
      st['hit_responses'] = st.get('hit_responses', 0) + 1


def build_all(cfgs):
  """cfgs: [(geometry, back end)] -> {(geometry key, back end): so or None}."""
  out, errs = {}, {}
  try:
    dut.runtime()
  except Exception as e:
    return {(c.key(), b): None for c, b in cfgs}, {'runtime': str(e)}
  with mp.get_context('fork').Pool(min(NPROC, max(1, len(cfgs)))) as pool:
    rs = [(c, b, pool.apply_async(_build, (c, b))) for c, b in sorted(cfgs, key=lambda x: -x[0].nbytes * 8 // x[0].clw)]
    for c, b, r in rs:
      so, err = r.get()
      out[c.key(), b] = so
      if err:
        errs[repr(c) + ('' if b == 'v' else '.' + b)] = err
  return out, errs


def _build(c, b):
  try:
    return dut.build(c, b), None
  except Exception as e:
    return None, '%s: %s' % (type(e).__name__, str(e)[:800])


def _drive(args):
  """Drive and record one chunk of cases (in a worker process)."""
  jid, items, sos, workdir = args
  path = os.path.join(workdir, 'd%s.ndjson' % jid)
  st = {'cycles': 0, 'by_backend': {}, 'by_geometry': {}, 'by_profile': {}}
  fails, sigs, sample, n, nev = [], set(), None, 0, 0
  with open(path, 'w') as f:
    for (tid, prof, ck, backend, seed) in items:
      cfg = Cfg(*ck)
      case = mk_case(prof, cfg, seed)
      try:
        tr = run_case(case, cfg, backend, tid, sos.get((ck, backend)))
      except DutError as e:
        fails.append((tid, prof, ck, backend, seed, [('exception: ' + str(e), 0)]))
        continue
      cyc = tr.pop('cycles')
      if getattr(case.env, 'script', None):
        # how many of the cycle-by-cycle walks the pipeline model predicted to the end (informational)
        d = case.env.drift
        st['walks_as_predicted' if d is None else 'walks_unlike_model'] = st.get(
            'walks_as_predicted' if d is None else 'walks_unlike_model', 0) + 1
      st['cycles'] += cyc
      for d, k in ((st['by_backend'], backend), (st['by_geometry'], repr(cfg)), (st['by_profile'], prof)):
        d[k] = d.get(k, 0) + 1
      stats_of(tr, st)
      if any(e['k'] == 'mq' and e['ty'] == 0 for e in tr['ev']):
        sigs.add(hashlib.md5(json.dumps([[e[k] for k in ('k', 'ty', 'ad') if k in e] for e in tr['ev']]).encode()).hexdigest())
      f.write(json.dumps(tr, separators=(',', ':')) + '\n')
      if sample is None:
        sample = dict(profile=prof, geometry=repr(cfg), backend=backend, seed=seed, env=case.env.rec(),
                      first_events=tr['ev'][:6], events=len(tr['ev']))
      n += 1
      nev += len(tr['ev'])
  return dict(path=path, fails=fails, st=st, sigs=sigs, n=n, nev=nev, sample=sample)


def _judge(args):
  """One TLC run over the traces of some chunks.  A verdict must come back
  for every trace."""
  jid, paths, n, workdir, module = args
  path = os.path.join(workdir, 'b%s.ndjson' % jid)
  with open(path, 'w') as f:
    for p in paths:
      with open(p) as g:
        shutil.copyfileobj(g, f)
      os.unlink(p)
  rc, out, sec = tlc.run_tlc(module, env={'TRACE_FILE': path}, workers=1, timeout=3000, heap='2500m')
  if rc != 0:
    raise tlc.TlcError('TLC exit %d on %s:\n%s' % (rc, path, out[-3000:]))
  verd = {}
  for m in tlc.VERD.finditer(out):
    verd[m.group(1)] = [(a, int(b)) for a, b in tlc.PAIR.findall(m.group(2))]
  if len(verd) != n:
    raise tlc.TlcError('%d verdicts for %d traces in %s\n%s' % (len(verd), n, path, out[-2000:]))
  situ = {}
  for m in tlc.SITU.finditer(out):
    for x in re.findall(r'"([^"]*)"', m.group(1)):
      x = ' '.join(x.split())
      situ[x] = situ.get(x, 0) + 1
  m = tlc.STATS.search(out)
  os.unlink(path)
  return dict(situ=situ, bad={t: c for t, c in verd.items() if c}, states=int(m.group(2)), gen=int(m.group(1)), secs=sec)


def merge(a, b):
  for k, v in b.items():
    if isinstance(v, dict):
      merge(a.setdefault(k, {}), v)
    else:
      a[k] = a.get(k, 0) + v


def run_plan(plan, seed, workdir, module='CacheTrace', label=''):
  """plan: list of (profile, geometry, backend, count).
  -> dict(fails, stats, ...)"""
  cfgs = []
  for prof, cfg, backend, cnt in plan:
    if backend in VERILOG and (cfg.key(), backend) not in [(c.key(), b) for c, b in cfgs]:
      cfgs.append((cfg, backend))
  sos, errs = build_all(cfgs) if cfgs else ({}, {})
  items, nobuild = [], []
  for pi, (prof, cfg, backend, cnt) in enumerate(plan):
    b = backend
    if b == 'v' and not sos.get((cfg.key(), 'v')):
      # no Verilog to run: fewer traces on the PyMTL simulation
      b, cnt = 'p', max(1, cnt // 12)
    elif b in VERILOG and not sos.get((cfg.key(), b)):
      # the Verilog itself is the subject
      if 'runtime' in errs:
        raise RuntimeError(errs['runtime'])
      nobuild.append(('%s.%s' % (repr(cfg), b), prof, cfg.key(), b, 0, [('exception: ' + str(
          errs.get(repr(cfg) + '.' + b))[:600], 0)]))
      continue
    ks = range(cnt)
    if prof in TOURS:
      # cnt walks, spread over the tour (all of them if cnt is large enough)
      import tour
      nwalks = len(tour.walks(cfg.asso)) if prof == 'p_tour' else profiles.pipe_walks(prof, cfg)
      ks = [x * nwalks // cnt for x in range(cnt)] if cnt < nwalks else [x % nwalks for x in range(cnt - cnt % nwalks)]
    for j, k in enumerate(ks):
      s = case_seed(seed, label, prof, cfg.key(), backend, j)
      if prof in TOURS:
        s = s - s % 10000 + k
        items.append(('%s.%s.%s%d.%d' % (prof, repr(cfg), b, pi, j), prof, cfg.key(), b, s))
        continue
      s = case_seed(seed, label, prof, cfg.key(), backend, k)
      items.append(('%s.%s.%s%d.%d' % (prof, repr(cfg), b, pi, k), prof, cfg.key(), b, s))
  # PyMTL simulations one by one first, then Verilog in chunks
  slow = [[i] for i in items if i[3] == 'p']
  fast = [i for i in items if i[3] != 'p']
  ch = max(1, min(24, len(fast) // (3 * NPROC) + 1))
  chunks = slow + [fast[k:k + ch] for k in range(0, len(fast), ch)]
  jobs = [(str(j), c, sos, workdir) for j, c in enumerate(chunks)]
  res = dict(fails=nobuild, st={}, n=0, sigs=set(), situ={}, states=0, gen=0, samples=[], build_errors=errs, secs={})
  t0 = time.time()
  parts = []
  by = {i[0]: i for i in items}
  with cf.ProcessPoolExecutor(NPROC, mp_context=mp.get_context('fork')) as ex:
    for r in ex.map(_drive, jobs):
      res['fails'] += r['fails']
      merge(res['st'], r['st'])
      res['n'] += r['n']
      res['sigs'] |= r['sigs']
      if r['n']:
        parts.append(r)
      if r['sample'] and len(res['samples']) < 3:
        res['samples'].append(r['sample'])
    t1 = time.time()
    # balanced batches, at most ~60k events each
    nb = max(min(NPROC, len(parts)), sum(p['nev'] for p in parts) // 60000)
    bins = [[0, [], 0] for _ in range(nb)]
    for p in sorted(parts, key=lambda p: -p['nev']):
      b = min(bins, key=lambda b: b[0])
      b[0] += p['nev']
      b[1].append(p['path'])
      b[2] += p['n']
    for r in ex.map(_judge, [(str(j), b[1], b[2], workdir, module) for j, b in enumerate(bins) if b[1]]):
      merge(res['situ'], r['situ'])
      res['states'] += r['states']
      res['gen'] += r['gen']
      for tid, cl in r['bad'].items():
        res['fails'].append(by[tid] + (cl,))
  res['secs'] = dict(drive=round(t1 - t0, 1), tlc=round(time.time() - t1, 1))
  return res
