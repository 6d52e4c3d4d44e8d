#!/opt/venv/bin/python
"""How tightly do recorded traces bind the specification?

Records traces of the unchanged cache, spoils each copy in one place (one
field of one event, or one event dropped, repeated or swapped with a
neighbour), and has CacheTrace judge the spoiled copies: how many are rejected,
by kind of corruption.  Not part of any registered check."""
import os, sys, json, random, copy, tempfile, shutil, collections
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import engine, dut, tlc
from profiles import G


def flip(v, rng):
  k = rng.randrange(len(v))
  v[k] ^= 1 << rng.randrange(8)


def kinds():
  """name -> (which events, how to spoil event k of trace t)"""
  def setf(f, g):
    return lambda t, k, rng: t['ev'][k].__setitem__(f, g(t['ev'][k], rng))
  def dat(t, k, rng):
    flip(t['ev'][k]['dat'], rng)
  def masked(t, k, rng):
    e = t['ev'][k]
    w = rng.choice([x for x in range(len(e['mask'])) if e['mask'][x]])
    e['dat'][4 * w + rng.randrange(4)] ^= 1 << rng.randrange(8)
  def mask(t, k, rng):
    e = t['ev'][k]
    x = rng.randrange(len(e['mask']))
    e['mask'][x] ^= 1
  def addr(t, k, rng):
    lb = t['cfg']['lb']
    b = rng.randrange(lb.bit_length() - 1, 32)
    a = t['ev'][k]['ad']
    a[0 if b > 15 else 1] ^= 1 << (b % 16)
  def drop(t, k, rng):
    del t['ev'][k]
  def again(t, k, rng):
    t['ev'].insert(k, copy.deepcopy(t['ev'][k]))
  def early(t, k, rng):
    # before the event it answers or follows
    e = t['ev'].pop(k)
    j = k
    while j > 0 and t['ev'][j - 1]['k'] == 'mp':
      j -= 1
    t['ev'].insert(max(1, j - 1), e)
  rs = lambda e: e['k'] == 'rs'
  mq = lambda e: e['k'] == 'mq'
  wb = lambda e: e['k'] == 'mq' and e['ty'] == 1 and any(e['mask'])
  rd = lambda e: e['k'] == 'mq' and e['ty'] != 1
  amo = lambda e: e['k'] == 'mq' and 3 <= e['ty'] <= 11
  return {
    'response type': (rs, setf('ty', lambda e, r: e['ty'] ^ (1 << r.randrange(4)))),
    'response opaque': (rs, setf('op', lambda e, r: e['op'] ^ (1 << r.randrange(4)))),
    'response test': (rs, setf('te', lambda e, r: e['te'] ^ 1)),
    'response len': (rs, setf('len', lambda e, r: e['len'] ^ 1)),
    'response data': (rs, dat),
    'response to a port not ready': (rs, setf('r', lambda e, r: 0)),
    'response lost': (rs, drop),
    'response repeated': (rs, again),
    'memory request type': (mq, setf('ty', lambda e, r: 0 if e['ty'] > 1 else 3 if e['ty'] == 0 else 15)),
    'memory request address': (mq, addr),
    'memory request len': (mq, setf('len', lambda e, r: e['len'] ^ 1)),
    'memory request opaque (READ, AMO)': (rd, setf('op', lambda e, r: e['op'] ^ (1 << r.randrange(4)))),
    'write mask': (wb, mask),
    'written word': (wb, masked),
    'AMO operand': (amo, dat),
    'memory request lost': (mq, drop),
    'memory request repeated': (mq, again),
    'memory request to a port not ready': (mq, setf('r', lambda e, r: 0)),
  }


def main():
  n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
  rng = random.Random(11)
  traces = []
  for c in 'adehl':
    cfg = G[c]
    so = dut.build(cfg, 'v')
    for k, prof in enumerate(('p_all', 'p_wb', 'p_amo', 'p_inv')):
      s = engine.case_seed(99, c, k)
      traces.append(engine.run_case(engine.mk_case(prof, cfg, s), cfg, 'v', '%s%d' % (c, k), so))
  out, want = [], collections.Counter()
  for name, (sel, spoil) in kinds().items():
    tries = 0
    while want[name] < n and tries < 20 * n:
      tries += 1
      t = copy.deepcopy(rng.choice(traces))
      ks = [k for k, e in enumerate(t['ev']) if sel(e)]
      if not ks:
        continue
      k = rng.choice(ks)
      if name.startswith('memory request type'):
        # the event must stay well-formed for the type it now claims
        e = t['ev'][k]
        if e['ty'] == 0:
          e['dat'] = [0, 0, 0, 0]
      spoil(t, k, rng)
      t['id'] = '%s|%d' % (name, want[name])
      want[name] += 1
      out.append(t)
  d = tempfile.mkdtemp(prefix='bind_')
  try:
    files = []
    for j in range(4):
      p = os.path.join(d, '%d.ndjson' % j)
      with open(p, 'w') as f:
        for t in out[j::4]:
          f.write(json.dumps(t) + '\n')
      files.append(p)
    verd, _ = tlc.check_traces(files)
  finally:
    shutil.rmtree(d, ignore_errors=True)
  caught = collections.Counter()
  cl = collections.defaultdict(collections.Counter)
  for t in out:
    name = t['id'].split('|')[0]
    v = verd[t['id']]
    if v:
      caught[name] += 1
      cl[name][sorted(v, key=lambda c: c[1])[0][0]] += 1
    elif len(sys.argv) > 2:
      print('accepted', t['id'])
  for name in want:
    print('%-36s %3d of %3d rejected   %s' % (name, caught[name], want[name], dict(cl[name])))


if __name__ == '__main__':
  main()
