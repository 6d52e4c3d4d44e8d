"""Runs TLC on a file of recorded traces and collects its verdicts."""
import os, re, subprocess, tempfile, json, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


class TlcError(Exception):
  """The machinery failed (not a verdict about the code)."""


def classpath():
  d = os.path.dirname(JAR)
  jars = [JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.jar') and f != os.path.basename(JAR))
  return ':'.join(jars)


def run_tlc(module, cfg=None, env=None, workers=8, timeout=800, heap='6g', extra=(), simulate=None, specdir=None):
  meta = tempfile.mkdtemp(prefix='tlc_')
  try:
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', classpath(), 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg or module + '.cfg',
           *extra, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    r = subprocess.run(cmd, cwd=specdir or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return r.returncode, r.stdout, time.time() - t0
  finally:
    shutil.rmtree(meta, ignore_errors=True)


VERD = re.compile(r'<<\s*"VERDICT",\s*"([^"]*)",\s*\{(.*?)\}\s*>>', re.S)
PAIR = re.compile(r'<<\s*"([^"]+)",\s*(\d+)\s*>>')
SITU = re.compile(r'<<\s*"SITUATIONS",\s*\{(.*?)\}\s*>>', re.S)
STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def check_traces(files, module='CacheTrace', workers_each=1, timeout=800):
  """files: list of ndjson paths, one TLC per file, run concurrently.
  -> (verdicts {id: [(clause, idx)]}, stats)"""
  import concurrent.futures as cf
  verdicts, states, secs = {}, 0, 0
  def one(f):
    return f, run_tlc(module, env={'TRACE_FILE': f}, workers=workers_each, timeout=timeout, heap='3g')
  with cf.ThreadPoolExecutor(8) as ex:
    for f, (rc, out, sec) in ex.map(one, files):
      if rc != 0:
        raise TlcError('TLC exit %d on %s:\n%s' % (rc, f, out[-3000:]))
      for m in VERD.finditer(out):
        verdicts[m.group(1)] = [(a, int(b)) for a, b in PAIR.findall(m.group(2))]
      m = STATS.search(out)
      states += int(m.group(2)) if m else 0
      secs = max(secs, sec)
  return verdicts, dict(states=states, seconds=round(secs, 1))
