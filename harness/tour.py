"""Request sequences that take every transition of spec/CacheTour.

TLC enumerates the policy states of one cache set and prints each transition;
here they are chained into walks from the empty set (the state after reset).
"""
import os, re, json, random, hashlib, collections
import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CHUNK = 140
_memo = {}


def edges(ways):
  """[(row, req, row')] as TLC printed them, rows as canonical strings."""
  spec = os.path.join(ROOT, 'spec')
  h = hashlib.sha256(b''.join(open(os.path.join(spec, f), 'rb').read() for f in
                              ('CacheTour.tla', 'CacheCore.tla', 'CacheTour%d.cfg' % ways))).hexdigest()[:16]
  os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
  path = os.path.join(ROOT, 'build', 'tour%d_%s.json' % (ways, h))
  if os.path.exists(path):
    return json.load(open(path))
  rc, out, sec = tlc.run_tlc('CacheTour', cfg='CacheTour%d.cfg' % ways, workers=1, timeout=300)
  if rc != 0:
    raise tlc.TlcError('CacheTour: exit %d\n%s' % (rc, out[-2000:]))
  E = []
  for m in re.finditer(r'^"EDGE(.*)"$', out, re.M):
    r, q, r2 = json.loads(m.group(1).replace('\\"', '"'))
    E.append([json.dumps(r, sort_keys=True), q, json.dumps(r2, sort_keys=True)])
  if not E:
    raise tlc.TlcError('CacheTour printed no transitions')
  t = path + '.%d' % os.getpid()
  json.dump(E, open(t, 'w'))
  os.replace(t, path)
  return E


def walks(ways, seed=0):
  """Walks of at most CHUNK requests, each from the empty set, that together
  take every transition."""
  if (ways, seed) in _memo:
    return _memo[ways, seed]
  E = edges(ways)
  rng = random.Random(seed)
  E.sort(key=lambda e: json.dumps(e, sort_keys=True))
  rng.shuffle(E)
  succ = collections.defaultdict(list)
  for k, (a, q, b) in enumerate(E):
    succ[a].append(k)
  todo = {a: set(ks) for a, ks in succ.items()}
  targets = set(b for _, _, b in E)
  init = [a for a in succ if all(not w['v'] and not w['d'] and not w['t'] for w in json.loads(a)['w'])
          and json.loads(a)['lru'] == 1]
  assert len(init) == 1
  init = init[0]
  left = len(E)

  def path_to_todo(s):
    if todo[s]:
      return []
    prev = {s: None}
    dq = collections.deque([s])
    while dq:
      x = dq.popleft()
      for k in succ[x]:
        y = E[k][2]
        if y in prev:
          continue
        prev[y] = (x, k)
        if todo[y]:
          out = []
          while prev[y]:
            x2, k2 = prev[y]
            out.append(k2)
            y = x2
          return out[::-1]
        dq.append(y)
    return None
  out = []
  while left:
    s, w = init, []
    while left and len(w) < CHUNK:
      p = path_to_todo(s)
      if p is None or len(w) + len(p) >= CHUNK:
        break
      for k in p:
        w.append(E[k][1])
        if k in todo[s]:
          todo[s].discard(k)
          left -= 1
        s = E[k][2]
      k = max(todo[s])
      todo[s].discard(k)
      left -= 1
      w.append(E[k][1])
      s = E[k][2]
    out.append(w)
  _memo[ways, seed] = out
  return out
