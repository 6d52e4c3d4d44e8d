#!/usr/bin/env python3
"""Non-vacuity of the design model: CacheMC with one deliberate design error
must violate an invariant.  Prints a table; exit 0 if every fault is caught."""
import os, sys, re, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import tlc

FAULTS = [('CacheMC1', f) for f in ('nodirty', 'noevict', 'nokeep', 'lostghost', 'amonowb', 'amokeep', 'invdrops',
                                    'flushvalid', 'flushearly', 'flushdirty')]
FAULTS += [('CacheMC2a', f) for f in ('flushfull', 'nokeep')] + [('CacheMC2b', 'amofull'), ('CacheMC2T', 'wbfull')]

# the pipeline model: the same idea, one control or data-path error at a time
FAULTS += [('CachePipe1', f) for f in ('nobubble', 'ghostevict', 'mvstall', 'amodrop', 'evlost', 'nostallhit',
                                       'flushidx', 'rdyearly')]
FAULTS += [('CachePipe2s', 'flushnowait'), ('CachePipe1s', 'flushend'), ('CachePipe1d', 'nohold'), ('CachePipe1w', 'nomask'), ('CachePipe2', 'nohithold'),
           ('CachePipe2', 'repstall'), ('CachePipe2', 'mshrway')]


def main():
  ok = True
  for cfg, fault in FAULTS:
    if len(sys.argv) > 1 and sys.argv[1] not in cfg:
      continue
    d = tempfile.mkdtemp(prefix='fault_')
    try:
      t = open(os.path.join(tlc.SPEC, cfg + '.cfg')).read().replace('Fault = "none"', 'Fault = "%s"' % fault)
      open(os.path.join(d, 'F.cfg'), 'w').write(t)
      rc, out, sec = tlc.run_tlc(re.match('[A-Za-z]+?(?=[0-9])', cfg).group(0), cfg=os.path.join(d, 'F.cfg'), workers=4, heap='3g', timeout=300)
      m = re.search(r'Invariant (\w+) is violated', out) or re.search(r'(Deadlock|deadlock) reached', out)
      print('%-10s %-12s %s' % (cfg, fault, 'violates ' + m.group(1) if m else 'NOT CAUGHT (rc %d)' % rc), flush=True)
      ok &= bool(m)
    finally:
      shutil.rmtree(d, ignore_errors=True)
  return 0 if ok else 1


if __name__ == '__main__':
  sys.exit(main())
