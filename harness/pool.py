"""Generic 'record in parallel, then let TLC judge' used by the checks whose
traces are not cache port traces."""
import os, re, json, multiprocessing as mp
import concurrent.futures as cf
import tlc
from engine import NPROC, _judge, DutError


def _one(a):
  fn, item, path = a
  try:
    tr = fn(item)
  except DutError as e:
    return path, item, 0, str(e)[:700]
  with open(path, 'w') as f:
    f.write(json.dumps(tr, separators=(',', ':')) + '\n')
  return path, item, len(tr['ev']), None


def run(fn, items, module, work, label):
  """fn(item) -> trace {id, ev, ...}; items are tuples whose first element is
  the trace id.  -> dict(viol=[(item, clauses)], n, states, gen, events)"""
  out = dict(viol=[], n=0, states=0, gen=0, events=0)
  with cf.ProcessPoolExecutor(NPROC, mp_context=mp.get_context('fork')) as ex:
    parts = []
    for path, item, nev, err in ex.map(_one, [(fn, it, os.path.join(work, '%s%d.ndjson' % (label, k)))
                                              for k, it in enumerate(items)]):
      if err:
        out['viol'].append((item, [('exception: ' + err, 0)]))
      else:
        parts.append((nev, path))
        out['n'] += 1
        out['events'] += nev
    nb = max(min(NPROC, len(parts)), out['events'] // 60000)
    bins = [[0, [], 0] for _ in range(nb)]
    for nev, path in sorted(parts, reverse=True):
      b = min(bins, key=lambda b: b[0])
      b[0] += nev
      b[1].append(path)
      b[2] += 1
    by = {it[0]: it for it in items}
    for r in ex.map(_judge, [(label + str(j), b[1], b[2], work, module) for j, b in enumerate(bins) if b[1]]):
      out['states'] += r['states']
      out['gen'] += r['gen']
      for tid, cl in r['bad'].items():
        out['viol'].append((by[tid], cl))
  return out
