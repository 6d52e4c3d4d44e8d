#!/opt/venv/bin/python
"""mutcheck.py CHECK FILE OUT.jsonl [-j N] [-n MAX]: mutants of FILE (see
mutate.py) against one registered check, run on a scratch copy of the tree.
Not part of any registered check."""
import os, sys, json, subprocess, shutil, random, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mutate


def one(a):
  cid, f, m = a
  d = '/dev/shm/mutc%d' % os.getpid()
  if not os.path.isdir(d):
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git', 'doc'))
  old = open(os.path.join(d, f)).read()
  try:
    open(os.path.join(d, f), 'w').write(m[2])
    r = subprocess.run(['nice', '-n', '19', 'python3', ROOT + '/harness/check.py', cid], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS='3'), timeout=900)
    ls = [l for l in r.stdout.splitlines() if l.startswith('  ')]
    return dict(file=f, line=m[0], what=m[1], check=cid, rc=r.returncode, first=ls[0][:160] if ls else r.stdout[-200:])
  except subprocess.TimeoutExpired:
    return dict(file=f, line=m[0], what=m[1], check=cid, rc=99, first='timeout')
  finally:
    open(os.path.join(d, f), 'w').write(old)


if __name__ == '__main__':
  cid, f, out = sys.argv[1:4]
  j = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 2
  mx = int(sys.argv[sys.argv.index('-n') + 1]) if '-n' in sys.argv else 10 ** 6
  ms = mutate.mutants('/repo/' + f)
  random.Random(5).shuffle(ms)
  with mp.Pool(j) as p, open(out, 'a') as o:
    for r in p.imap_unordered(one, [(cid, f, m) for m in ms[:mx]]):
      o.write(json.dumps(r) + '\n')
      o.flush()
      print('KILLED' if r['rc'] == 1 else 'rc=%d ***' % r['rc'], r['line'], r['what'], '|', '' if r['rc'] == 1 else r['first'][:100], flush=True)
