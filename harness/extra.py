"""Design models behind the properties, and the checks whose subject is not
the cache alone (translation, functional model, SRAM)."""
import os, re
import concurrent.futures as cf
import tlc

def _verilog(*a):
  import verilogck
  return verilogck.check(*a)


def _fl(*a):
  import flck
  return flck.check(*a)


def _sram(*a):
  import sramck
  return sramck.check(*a)


def _geo(*a):
  import geock
  return geock.check(*a)


def _multi(*a):
  import multick
  return multick.check(*a)


def _msg(*a):
  import msgck
  return msgck.check(*a)


EXTRA = {'C25': _msg, 'C24': _multi, 'C22': _geo, 'C18': _verilog, 'C19': _fl, 'C20': _sram}
LEVEL = {}

# property -> design models (quick, additional ones for thorough)
MODELS = {
  'C01': (['CacheMC1'], ['CacheMC1b', 'CacheMC1T']),
  'C04': (['CacheMC1'], ['CacheMC1b', 'CacheMC1T']),
  'C05': (['CacheMC1'], ['CacheMC1b', 'CacheMC1T']),
  'C06': (['CacheMC1'], ['CacheMC1b', 'CacheMC1T']),
  'C07': (['CacheMC1'], ['CacheMC1b', 'CacheMC1T']),
  'C08': (['CacheMC1'], ['CacheMC1b', 'CacheMC1T']),
  'C09': (['CacheMC1b'], ['CacheMC1', 'CacheMC1T']),
  'C02': (['CachePipe1'], ['CachePipe1s', 'CachePipe2']),
  'C03': (['CachePipe1'], ['CachePipe1s', 'CachePipe2']),
  'C10': (['CachePipe1'], ['CachePipe1w', 'CachePipe2']),
  'C11': (['CachePipe1', 'CachePipe1w'], ['CachePipe1s', 'CachePipe1d', 'CachePipe2', 'CachePipe2s']),
  'C12': (['CacheMC1L', 'CachePipe1L'], []),
  'C16': (['CacheMC2b'], ['CacheMC2a', 'CacheMC2c', 'CacheMC2T']),
}


def model(cfg, workers=8, timeout=3000):
  """Exhaustive TLC run of a design model -> coverage record.  These models
  do not depend on the code: a violation is an error of the specification."""
  module = re.match('[A-Za-z]*', cfg).group()
  module = {'CacheMC': 'CacheMC', 'CachePipe': 'CachePipe'}[module]
  rc, out, sec = tlc.run_tlc(module, cfg=cfg + '.cfg', workers=workers, timeout=timeout, heap='8g')
  m = re.findall(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
  if rc != 0 or not m:
    raise tlc.TlcError('design model %s: TLC exit %d\n%s' % (cfg, rc, out[-2500:]))
  return dict(module=module, config=cfg, transitions=int(m[-1][0]), states=int(m[-1][1]), seconds=round(sec, 1))


def design_models(cid, tier, work):
  quick, more = MODELS.get(cid, ([], []))
  runs = [model(c) for c in quick + (more if tier != 'quick' else [])]
  if not runs:
    return {}
  return dict(states=sum(r['states'] for r in runs), transitions=sum(r['transitions'] for r in runs), runs=runs)
