#!/opt/venv/bin/python
"""Mutation campaign: how much of the code's behaviour do the traces decide?

  mutate.py list FILE...                 count mutants
  mutate.py run OUT.jsonl [-j N] [FILE]  run them

Each mutant is one textual change of one file of a scratch copy of the
repository; it is translated, compiled, driven through a fixed plan and
judged by CacheTrace.  A mutant nobody objects to is printed as SURVIVED
for inspection.  Not part of any registered check."""
import ast, os, sys, json, subprocess, shutil, tempfile, hashlib, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'
B = 'blocking_cache/'
FILES = [B + f for f in ('BlockingCacheCtrlRTL.py', 'BlockingCacheDpathRTL.py', 'BlockingCacheRTL.py', 'CacheDerivedParams.py',
         'cacheStructs.py', 'units/MSHR.py', 'units/ReplacementPolicy.py', 'units/StallEngine.py', 'units/UpdateTagArrayUnit.py',
         'units/arithmetics.py', 'units/counters.py', 'units/muxes.py', 'units/registers.py', 'cache_constants.py')] + \
        ['sram/SramPRTL.py', 'mem_ifcs/MemMsg.py', 'constants/constants.py']

CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>']}
BIN = {ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.Add: ['-'], ast.Sub: ['+'], ast.BitXor: ['|']}


def mutants(path):
  """-> list of (line, description, new text)"""
  src = open(path).read()
  import warnings, random
  warnings.simplefilter('ignore')
  rng = random.Random(7)
  tree = ast.parse(src)
  lines = src.split('\n')
  starts = [0]
  for l in lines:
    starts.append(starts[-1] + len(l.encode()) + 1)
  raw = src.encode()
  off = lambda ln, col: starts[ln - 1] + col
  out = []

  def rep(a, b, new, node, what):
    txt = (raw[:a] + new.encode() + raw[b:]).decode()
    try:
      ast.parse(txt)
    except SyntaxError:
      return
    out.append((node.lineno, '%s: %r -> %r' % (what, raw[a:b].decode()[:60], new[:60]), txt))

  names = {}
  for n in ast.walk(tree):
    if isinstance(n, ast.Attribute):
      names.setdefault('attr', set()).add(n.attr)
    if isinstance(n, ast.Name):
      names.setdefault('name', set()).add(n.id)
  states = sorted(x for x in names.get('name', ()) if 'STATE' in x)
  types = ['READ', 'WRITE', 'INV', 'FLUSH', 'AMO_ADD', 'WRITE_INIT', 'AMO_XOR']

  skip = set()
  for n in ast.walk(tree):       # no mutation of line_trace and docstrings
    if isinstance(n, ast.FunctionDef) and n.name in ('line_trace', '__str__', 'msg_to_str'):
      for x in ast.walk(n):
        skip.add(id(x))
  for n in ast.walk(tree):
    if id(n) in skip or not hasattr(n, 'lineno'):
      continue
    a = off(n.lineno, n.col_offset)
    b = off(n.end_lineno, n.end_col_offset)
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      l, r = n.left, n.comparators[0]
      x, y = off(l.end_lineno, l.end_col_offset), off(r.lineno, r.col_offset)
      for o in CMP.get(type(n.ops[0]), []):
        # keep brackets that sit between the operands
        mid = raw[x:y].decode()
        for t in ('==', '!=', '<=', '>=', '<', '>'):
          if t in mid:
            rep(x, y, mid.replace(t, o, 1), n, 'cmp')
            break
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
      x, y = off(n.left.end_lineno, n.left.end_col_offset), off(n.right.lineno, n.right.col_offset)
      mid = raw[x:y].decode()
      for o in BIN[type(n.op)]:
        for t in '&|+-^':
          if t in mid:
            rep(x, y, mid.replace(t, o, 1), n, 'op')
            break
      if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
        rep(a, b, raw[off(n.left.lineno, n.left.col_offset):x].decode(), n, 'left only')
        rep(a, b, raw[y:b].decode(), n, 'right only')
    elif isinstance(n, ast.BoolOp):
      for v in n.values:
        rep(a, b, raw[off(v.lineno, v.col_offset):off(v.end_lineno, v.end_col_offset)].decode(), n, 'one operand')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)):
      rep(a, b, raw[off(n.operand.lineno, n.operand.col_offset):b].decode(), n, 'negation')
    elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
      rep(a, b, str(n.value + 1), n, 'const')
      if n.value > 0:
        rep(a, b, str(n.value - 1), n, 'const')
    elif isinstance(n, ast.Name) and n.id in ('y', 'n') and isinstance(n.ctx, ast.Load):
      rep(a, b, 'n' if n.id == 'y' else 'y', n, 'table')
    elif isinstance(n, ast.Name) and n.id in states and isinstance(n.ctx, ast.Load):
      alt = [s for s in states if s != n.id and s.split('STATE')[0] == n.id.split('STATE')[0]]
      for s in rng.sample(alt, min(2, len(alt))):
        if True:
          rep(a, b, s, n, 'state')
    elif isinstance(n, ast.Attribute) and n.attr in types and isinstance(n.ctx, ast.Load):
      for t in rng.sample([t for t in types if t != n.attr], 2):
        if True:
          rep(a, b, raw[a:off(n.value.end_lineno, n.value.end_col_offset)].decode() + '.' + t, n, 'type')
    elif isinstance(n, (ast.If, ast.IfExp)):
      t = n.test
      x, y = off(t.lineno, t.col_offset), off(t.end_lineno, t.end_col_offset)
      e = raw[x:y].decode()
      rep(x, y, '~(%s)' % e if not isinstance(t, ast.Compare) or isinstance(n, ast.If) else 'not (%s)' % e, n, 'negated if')
    if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.MatMult, ast.LShift, ast.FloorDiv)):
      rep(a, b, 'pass', n, 'deleted')
  seen, res = set(), []
  for m in out:
    if m[2] not in seen:
      seen.add(m[2])
      res.append(m)
  return res


RUN = r'''
import sys, os, json, tempfile
sys.path.insert(0, %(root)r + '/harness')
import engine, dut, tlc, drive
from profiles import G
def stage(gs, profs, work, py=()):
  import random
  fp = os.path.join(work, 't.ndjson')
  n = 0
  kinds = set()
  with open(fp, 'w') as f:
    for g in gs:
      cfg = G[g]
      try:
        so = dut.build(cfg, 'v')
      except Exception as e:
        return 'build: %%s %%s' %% (type(e).__name__, str(e)[:150])
      for p, cnt in profs:
        for k in range(cnt):
          s = engine.case_seed('mut', p, g, k)
          try:
            tr = engine.run_case(engine.mk_case(p, cfg, s), cfg, 'v', '%%s.%%s.%%d' %% (p, g, k), so)
          except dut.DutError as e:
            return 'exception: ' + str(e)[:150]
          f.write(json.dumps(tr) + '\n')
          n += 1
  v, _ = tlc.check_traces([fp])
  if len(v) != n:
    return 'machinery %%d of %%d' %% (len(v), n)
  cl = {}
  for t, cs in v.items():
    for c in cs:
      cl[c[0]] = cl.get(c[0], 0) + 1
  return json.dumps(cl) if cl else None
work = tempfile.mkdtemp()
try:
  base = json.load(open(%(base)r))
  same = []
  res = None
  def same_as_base(g):
    import re
    try:
      t, _ = dut.translate(G[g])
    except Exception as e:
      return 'translate: %%s %%s' %% (type(e).__name__, str(e)[:150])
    import hashlib
    return hashlib.sha256(re.sub(r'//[^\n]*', '', t).encode()).hexdigest() == base[g]
  todo = [('a', [('p_all', 14), ('p_calmmiss', 6), ('p_harsh', 6), ('p_reset', 4), ('p_wide', 4)]),
          ('b', [('p_all', 14), ('p_calmmiss', 6), ('p_harsh', 6)]),
          ('d', [('p_all', 14), ('p_calmmiss', 6), ('p_wide', 6)]),
          ('n', [('p_all', 14), ('p_tags', 8)]),
          ('h', [('p_all', 14), ('p_wide', 8), ('p_block', 4)]),
          ('e', [('p_all', 14), ('p_wide', 8)])]
  eq = 0
  for g, pr in todo:
    x = same_as_base(g)
    if isinstance(x, str):
      res = x
      break
    if x:
      eq += 1
      continue
    res = stage([g], pr, work)
    if res:
      res = g + ' ' + res
      break
  print('RESULT', json.dumps(dict(res=res, eq=eq, of=len(todo))))
finally:
  import shutil
  shutil.rmtree(work, ignore_errors=True)
'''


def worker(a):
  wid_q, item, base = a
  wid = os.getpid()
  c = '/dev/shm/mut/%d' % wid
  if not os.path.isdir(c):
    os.makedirs('/dev/shm/mut', exist_ok=True)
    subprocess.run(['cp', '-a', REPO, c], check=True)
  f, line, what, txt = item
  p = os.path.join(c, f)
  old = open(p).read()
  open(p, 'w').write(txt)
  cache = '/dev/shm/mut/cache_%d' % wid
  os.makedirs(cache, exist_ok=True)
  try:
    r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', RUN % dict(root=ROOT, base=base)], cwd='/tmp',
                       env=dict(os.environ, VERIF_REPO=c, VERIF_VCACHE=cache, VERIF_JOBS='1', PYTHONDONTWRITEBYTECODE='1'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    m = [l for l in r.stdout.split('\n') if l.startswith('RESULT')]
    res = json.loads(m[-1][7:]) if m else dict(res='crash ' + r.stdout[-300:])
  except subprocess.TimeoutExpired:
    res = dict(res='timeout')
  finally:
    open(p, 'w').write(old)
    for x in os.listdir(cache):
      if x.endswith('.so'):
        os.unlink(os.path.join(cache, x))
  return dict(file=f, line=line, what=what, **res)


def main():
  import multiprocessing as mp, random
  a = sys.argv[1:]
  files = [x for x in a[2:] if x.endswith('.py')] if a[0] == 'run' else a[1:]
  files = files or FILES
  items = []
  for f in files:
    for l, w, t in mutants(os.path.join(REPO, f)):
      items.append((f, l, w, t))
  if a[0] == 'list':
    import collections
    print(len(items), collections.Counter(i[0] for i in items))
    return
  done = set()
  if os.path.exists(a[1]):
    for l in open(a[1]):
      d = json.loads(l)
      done.add((d['file'], d['line'], d['what']))
  items = [i for i in items if i[:3] not in done]
  random.Random(5).shuffle(items)
  base = '/dev/shm/mut_base.json'
  subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', '''
import sys, json, re, hashlib
sys.path.insert(0, %r + '/harness')
import dut
from profiles import G
json.dump({g: hashlib.sha256(re.sub(r'//[^\\n]*', '', dut.translate(G[g])[0]).encode()).hexdigest() for g in 'abdnhe'}, open(%r, 'w'))
''' % (ROOT, base)], check=True)
  j = int(a[a.index('-j') + 1]) if '-j' in a else 8
  n = 0
  with open(a[1], 'a') as out, mp.Pool(j) as pool:
    for r in pool.imap_unordered(worker, [(None, i, base) for i in items]):
      out.write(json.dumps(r) + '\n')
      out.flush()
      n += 1
      if not r['res']:
        print(n, 'SURVIVED', r['file'], r['line'], r['what'], r.get('eq'), flush=True)
  for x in os.listdir('/dev/shm/mut'):
    shutil.rmtree(os.path.join('/dev/shm/mut', x), ignore_errors=True)


if __name__ == '__main__':
  main()
