"""Cycle-by-cycle schedules from the pipeline model (spec/CachePipe).

TLC enumerates every transition of the model: the state of the pipeline and
what the outside does in that cycle (a request accepted, the output ports
refusing, memory answering).  Here they are chained into walks from reset that
together take every transition.  A walk fixes what the outside does in every
cycle; the real cache is run under it and the trace judged by CacheTrace.
"""
import os, re, json, random, hashlib, collections, subprocess, tempfile, shutil, gzip
import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
CHUNK = 400
_memo = {}
LINE = re.compile(r'^"EDGE(.*)"$')


def _hash(cfg):
  h = hashlib.sha256()
  for f in ('CachePipe.tla', 'CacheCore.tla', cfg + '.cfg'):
    h.update(open(os.path.join(SPEC, f), 'rb').read())
  return h.hexdigest()[:16]


def edges(cfg, workers=1):
  """-> (initial node, [(a, b, op, ok, md, prediction)])"""
  d = tempfile.mkdtemp(prefix='pipe_')
  try:
    for f in ('CachePipe.tla', 'CacheCore.tla'):
      shutil.copy(os.path.join(SPEC, f), d)
    t = open(os.path.join(SPEC, cfg + '.cfg')).read()
    assert 'Emit = FALSE' in t
    open(os.path.join(d, cfg + '.cfg'), 'w').write(t.replace('Emit = FALSE', 'Emit = TRUE'))
    rc, out, sec = tlc.run_tlc('CachePipe', cfg=cfg + '.cfg', workers=workers, timeout=1500, specdir=d)
    if rc != 0:
      raise tlc.TlcError('CachePipe %s: exit %d\n%s' % (cfg, rc, out[-2000:]))
  finally:
    shutil.rmtree(d, ignore_errors=True)
  E, init = [], None
  for l in out.splitlines():
    m = LINE.match(l)
    if m:
      a, rq, ok, md, b, rdy, mo, ro, hit, ctx = json.loads(m.group(1).replace('\\"', '"'))
      E.append((tuple(a), tuple(b), tuple(rq), int(ok), int(md), (int(rdy), int(mo != 'no'), (1 + int(hit)) if ro == 'r' else 0),
                tuple(ctx)))
      if ctx[0] == 'INIT' and ctx[2] == 'none':
        init = tuple(a)
  # TLC's workers print in any order
  E.sort()
  return init, E


def build(cfg):
  init, E = edges(cfg)
  succ = collections.defaultdict(list)
  for k, e in enumerate(E):
    succ[e[0]].append(k)
  todo = {a: list(ks) for a, ks in succ.items()}
  rng = random.Random(7)
  for a in sorted(todo):
    rng.shuffle(todo[a])
  left = len(E)
  def path(s, lim, most):
    """edges to the nearest node with a transition left to take, if near"""
    if todo.get(s):
      return []
    prev = {s: None}
    dq = collections.deque([(s, 0)])
    while dq and len(prev) < most:
      x, dep = dq.popleft()
      if dep >= lim:
        return None
      for k in succ[x]:
        y = E[k][1]
        if y in prev:
          continue
        prev[y] = (x, k)
        if todo.get(y):
          return trace(prev, y)
        dq.append((y, dep + 1))
    return None
  def trace(prev, y):
    out = []
    while prev[y]:
      y, k = prev[y]
      out.append(k)
    return out[::-1]
  # shortest ways from reset
  order, tree = [init], {init: None}
  for x in order:
    for k in succ.get(x, ()):
      if E[k][1] not in tree:
        tree[E[k][1]] = (x, k)
        order.append(E[k][1])
  near = 0
  walks = []
  while left:
    while not todo.get(order[near]):
      near += 1
    w = trace(tree, order[near])
    s = order[near]
    p = []
    while p is not None and len(w) + len(p) < CHUNK:
      for k in p:
        w.append(k)
        s = E[k][1]
      k = todo[s].pop()
      left -= 1
      w.append(k)
      s = E[k][1]
      p = path(s, 40, 4000) if left else None
    walks.append([E[k][2:7] for k in w])
  return walks, len(E), len(succ)


def stored(cfg):
  return os.path.join(SPEC, 'walks', cfg + '.json.gz')


def save(cfg, path):
  """Walks as indices into the table of distinct steps."""
  w, ne, nn = build(cfg)
  table, num = [], {}
  for st in sorted(set(x for y in w for x in y)):
    num[st] = len(table)
    table.append(st)
  o = dict(spec=_hash(cfg), edges=ne, nodes=nn, steps=table, walks=[[num[x] for x in y] for y in w])
  t = path + '.%d' % os.getpid()
  with gzip.GzipFile(t, 'wb', 9, mtime=0) as f:
    f.write(json.dumps(o, separators=(',', ':')).encode())
  os.replace(t, path)


def load(cfg):
  """The stored walks, as long as they are those of the current specification
  (they do not depend on the code under test)."""
  if cfg in _memo:
    return _memo[cfg]
  h = _hash(cfg)
  for path in (stored(cfg), os.path.join(ROOT, 'build', 'pipe_%s_%s.json.gz' % (cfg, h))):
    if os.path.exists(path):
      o = json.load(gzip.open(path))
      if o['spec'] == h:
        break
  else:
    os.makedirs(os.path.dirname(path), exist_ok=True)
    save(cfg, path)
    o = json.load(gzip.open(path))
  _memo[cfg] = o
  return o


def count(cfg):
  return len(load(cfg)['walks'])


def walk(cfg, k):
  """[(op, ports ready, memory answers, prediction, context)]"""
  o = load(cfg)
  return [o['steps'][x] for x in o['walks'][k % len(o['walks'])]]


def contexts(cfg):
  """{pipeline context: [(walk, position)]}: the first few places where the
  walks pass through each context"""
  o = load(cfg)
  if 'ctx' not in o:
    c = {}
    for a, w in enumerate(o['walks']):
      for b, x in enumerate(w):
        l = c.setdefault(json.dumps(o['steps'][x][4]), [])
        if len(l) < 12:
          l.append((a, b))
    o['ctx'] = c
  return o['ctx']


if __name__ == '__main__':
  import sys
  os.makedirs(os.path.join(SPEC, 'walks'), exist_ok=True)
  for c in sys.argv[1:]:
    if not (os.path.exists(stored(c)) and json.load(gzip.open(stored(c)))['spec'] == _hash(c)):
      save(c, stored(c))
    o = load(c)
    print(c, o['edges'], 'transitions', o['nodes'], 'states', len(o['walks']), 'walks', sum(map(len, o['walks'])), 'cycles')
