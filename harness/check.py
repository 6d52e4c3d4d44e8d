#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --replay FILE"""
import os, sys
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and sys.prefix != '/opt/venv':
  os.execv(PY, [PY, '-W', 'ignore'] + sys.argv)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('PYTHONHASHSEED', '0')
import json, time, tempfile, shutil
import pymtl3    # its absence would be the machinery's fault, not the code's
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def known():
  """committed known findings: list of dicts {property, clause, geometry, profile?, what}"""
  p = os.path.join(ROOT, 'known_findings.json')
  return json.load(open(p)).get('findings', []) if os.path.exists(p) else []


def main():
  a = sys.argv[1:]
  if a and a[0] == '--replay':
    return replay(a[1])
  cid = a[0]
  tier = 'thorough' if '--thorough' in a else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  import engine, checks, extra
  t0 = time.time()
  work = tempfile.mkdtemp(prefix='verif_%s_' % cid)
  rdir = os.path.join(ROOT, 'build', 'replay')
  os.makedirs(rdir, exist_ok=True)
  try:
    if cid in extra.EXTRA:
      rc, cov, viol = extra.EXTRA[cid](cid, tier, seed, work)
      level = extra.LEVEL.get(cid, 'model_checking')
    else:
      rc, cov, viol = run_cache_check(cid, tier, seed, work)
      level = 'model_checking'
    ev = dict(property=cid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 1),
              result='violation' if viol else 'held')
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', cid + '.json'), 'w'), indent=1)
    for k, v in enumerate(viol[:8]):
      p = os.path.join(rdir, '%s_%d.json' % (cid, k))
      json.dump(v, open(p, 'w'), indent=1)
      print('  %s: %s' % (v.get('trace'), v.get('clauses')))
    if viol:
      print('VIOLATION property=%s replay=%s' % (cid, os.path.join(rdir, cid + '_0.json')))
      return 1
    print('%s held: %s (%.0f s)' % (cid, {k: v for k, v in cov.items() if isinstance(v, int)}, time.time() - t0))
    return 0
  finally:
    shutil.rmtree(work, ignore_errors=True)


def run_cache_check(cid, tier, seed, work):
  import engine, checks, extra
  ck = checks.CHECKS[cid]
  res = engine.run_plan(checks.plan_for(cid, tier), seed, work, label=cid)
  model = extra.design_models(cid, tier, work)
  viol, other = [], {}
  if any(c[0] == 'env.memory' for f in res['fails'] for c in f[5]):
    raise RuntimeError('the driver\'s memory and the specification\'s disagree: ' + str(res['fails'][:1]))
  for tid, prof, key, backend, s, cl in sorted(res['fails']):
    hit = [c for c in cl if c[0] in ck['clauses'] or c[0].startswith('exception')]
    for c in cl:
      if c not in hit:
        other[c[0]] = other.get(c[0], 0) + 1
    if hit:
      viol.append(dict(property=cid, trace=tid, profile=prof, geometry=list(key), backend=backend, seed=s,
                       clauses=sorted(hit, key=lambda c: c[1])))
  cov = dict(states=res['states'] + model.get('states', 0), transitions=res['gen'] + model.get('transitions', 0),
             traces_validated_against_impl=res['n'], distinct_traces_with_misses=len(res['sigs']),
             trace_states=res['states'], design_model=model, clauses=sorted(ck['clauses']),
             stimulus=res['st'], failing_traces=len(res['fails']), clauses_failing_outside_property=other,
             situations_met_in_traces=dict(sorted(res['situ'].items())), verilog_build_errors=res['build_errors'], samples=res['samples'])
  return (1 if viol else 0), cov, viol


def replay(path):
  """Re-run the recorded stimulus on the current tree and show what fails."""
  import engine, tlc
  v = json.load(open(path))
  module, rec = 'CacheTrace', None
  if v.get('replay'):
    mod = __import__(v['replay'])
    module, rec = mod.replay(v)
  elif 'profile' not in v:
    print(json.dumps(v, indent=1))
    return 0
  else:
    cfg = engine.Cfg(*v['geometry'])
    def rec():
      case = engine.mk_case(v['profile'], cfg, v['seed'])
      so = engine.dut.build(cfg, v['backend']) if v['backend'] in engine.VERILOG else None
      return engine.run_case(case, cfg, v['backend'], v['trace'], so)
  work = tempfile.mkdtemp(prefix='verif_replay_')
  try:
    try:
      tr = rec()
    except (engine.DutError, engine.BuildError) as e:
      print(e)
      return 1
    p = os.path.join(work, 't.ndjson')
    open(p, 'w').write(json.dumps(tr) + '\n')
    verd, _ = tlc.check_traces([p], module)
    cl = sorted(verd[tr['id']], key=lambda c: c[1])
    for c, i in cl:
      print('%-22s at event %d' % (c, i))
    if cl:
      i = cl[0][1]
      for k in range(max(0, i - 14), min(len(tr['ev']), i + 2)):
        print('%s %4d %s' % ('>>' if k == i - 1 else '  ', k + 1, json.dumps(tr['ev'][k])))
    else:
      print('nothing fails')
    return 1 if cl else 0
  finally:
    shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
  sys.stdout.reconfigure(line_buffering=True)
  try:
    rc = main()
  except Exception:
    # the machinery failed: neither a pass nor a violation
    import traceback
    traceback.print_exc(file=sys.stdout)
    rc = 3
  sys.exit(rc)
