"""The implementation under test, as a synchronous step function.

Two interchangeable back ends expose the *same* top-level ports of
BlockingCacheRTL and nothing else:

  PyDut  - PyMTL3 simulation of /repo's Python model (the code itself)
  VDut   - the Verilog PyMTL3 generates from it, compiled by Verilator

One call of step() is one clock cycle.  `req`/`mresp` are packed message
integers or None; en is raised only if the DUT shows rdy in that cycle
(the en/rdy protocol of pymtl3.stdlib.ifcs).
"""
import os, re, sys, hashlib, subprocess, ctypes, shutil, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
  sys.path.insert(0, REPO)


class DutError(Exception):
  """The code of /repo itself failed (exception at elaboration or simulation)."""


class Cfg:
  """Geometry of one cache instance."""
  def __init__(s, clw=128, dbw=32, nbytes=64, asso=2, obw=8, abw=32):
    s.clw, s.dbw, s.nbytes, s.asso, s.obw, s.abw = clw, dbw, nbytes, asso, obw, abw
    s.lb = clw // 8
    s.db = dbw // 8
    s.nlines = nbytes // s.lb
    s.ns = s.nlines // asso
  def key(s):
    return (s.clw, s.dbw, s.nbytes, s.asso, s.obw, s.abw)
  def __repr__(s):
    return 'clw%d_dbw%d_b%d_w%d_o%d_a%d' % s.key()
  def rec(s):
    return dict(ways=s.asso, sets=s.ns, lb=s.lb, db=s.db)


class Fmt:
  """Packing of a message bitstruct: first field is most significant."""
  def __init__(s, cls):
    s.cls = cls
    names = list(cls.__bitstruct_fields__.items())
    s.fields, pos = {}, 0
    for n, t in reversed(names):
      s.fields[n] = (pos, t.nbits)
      pos += t.nbits
    s.nbits = pos
    s.order = [(n, t) for n, t in names]
  def pack(s, **kw):
    v = 0
    for n, x in kw.items():
      p, w = s.fields[n]
      v |= (int(x) & ((1 << w) - 1)) << p
    return v
  def get(s, v, n):
    p, w = s.fields[n]
    return (v >> p) & ((1 << w) - 1)
  def width(s, n):
    return s.fields[n][1] if n in s.fields else 0


def mk_types(cfg):
  from mem_ifcs.MemMsg import mk_mem_msg
  cq, cp = mk_mem_msg(cfg.obw, cfg.abw, cfg.dbw, has_wr_mask=False)
  mq, mp = mk_mem_msg(cfg.obw, cfg.abw, cfg.clw)
  return cq, cp, mq, mp


def elaborate(cfg):
  from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
  cq, cp, mq, mp = mk_types(cfg)
  m = BlockingCacheRTL(cq, cp, mq, mp, cfg.nbytes, cfg.asso)
  m.elaborate()
  return m


class DutBase:
  def _fmts(s, cfg):
    s.cfg = cfg
    cq, cp, mq, mp = mk_types(cfg)
    s.cq, s.cp, s.mq, s.mp = Fmt(cq), Fmt(cp), Fmt(mq), Fmt(mp)


class PyDut(DutBase):
  kind = 'pymtl'
  def __init__(s, cfg):
    try:
      s._fmts(cfg)
      from pymtl3 import DefaultPassGroup
      from pymtl3.passes.sim.SimpleTickPass import SimpleTickPass
      from pymtl3.passes.sim.PrepareSimPass import PrepareSimPass
      m = s.m = elaborate(cfg)
      m.apply(DefaultPassGroup())
      s.up = SimpleTickPass.gen_tick_function(m._sched.update_schedule)
      pp = PrepareSimPass()
      s.ff = SimpleTickPass.gen_tick_function(pp.collect_ff_funcs(m))
    except Exception as e:
      raise DutError('elaboration of %r failed: %s: %s' % (cfg, type(e).__name__, str(e)[:500]))
    mi, ma = m.mem_minion_ifc, m.mem_master_ifc
    s.i_req, s.o_resp, s.o_mreq, s.i_mresp = mi.req, mi.resp, ma.req, ma.resp

  def _set(s, sig, fmt, v):
    for n, t in fmt.order:
      f = getattr(sig, n)
      f @= t(fmt.get(v, n))
  def _get(s, sig, fmt):
    v = 0
    for n, (p, w) in fmt.fields.items():
      v |= int(getattr(sig, n)) << p
    return v

  def step(s, reset, req, req_idle, resp_rdy, mreq_rdy, mresp, mresp_idle):
    """-> (req_rdy, resp_en, resp_msg, mreq_en, mreq_msg, mresp_rdy)"""
    try:
      from pymtl3 import b1
      s.m.reset @= reset
      s.o_resp.rdy @= resp_rdy
      s.o_mreq.rdy @= mreq_rdy
      s._set(s.i_mresp.msg, s.mp, mresp_idle if mresp is None else mresp)
      s._set(s.i_req.msg, s.cq, req_idle if req is None else req)
      s.i_req.en @= 0
      s.i_mresp.en @= 0 if mresp is None else 1
      s.up()
      rr = int(s.i_req.rdy)
      mr = int(s.i_mresp.rdy)
      again = False
      if mresp is not None and not mr:
        s.i_mresp.en @= 0
        again = True
      if req is not None and rr and not reset:
        s.i_req.en @= 1
        again = True
      if again:
        s.up()
      re = int(s.o_resp.en)
      me = int(s.o_mreq.en)
      out = (rr, re, s._get(s.o_resp.msg, s.cp) if re else 0,
             me, s._get(s.o_mreq.msg, s.mq) if me else 0, mr)
      s.ff()
      return out
    except Exception as e:
      raise DutError('simulation of %r failed: %s: %s' % (s.cfg, type(e).__name__, str(e)[:500]))


SHIM = r'''
#include "Vdut.h"
#include "verilated.h"
#include <cstring>
#include <cstdint>
typedef uint32_t u32;
static inline void put(CData& d,const u32*p){d=(CData)p[0];}
static inline void put(SData& d,const u32*p){d=(SData)p[0];}
static inline void put(IData& d,const u32*p){d=p[0];}
static inline void put(QData& d,const u32*p){d=(QData)p[0]|((QData)p[1]<<32);}
template<std::size_t N> static inline void put(VlWide<N>& d,const u32*p){for(size_t i=0;i<N;i++)d[i]=p[i];}
static inline void get(const CData& d,u32*p){p[0]=d;}
static inline void get(const SData& d,u32*p){p[0]=d;}
static inline void get(const IData& d,u32*p){p[0]=d;}
static inline void get(const QData& d,u32*p){p[0]=(u32)d;p[1]=(u32)(d>>32);}
template<std::size_t N> static inline void get(const VlWide<N>& d,u32*p){for(size_t i=0;i<N;i++)p[i]=d[i];}
#define MI(x) mem_minion_ifc___05F##x
#define MA(x) mem_master_ifc___05F##x
struct D { VerilatedContext* c; Vdut* m; };
extern "C" {
void* dut_new(int mode,int seed){ D*d=new D; d->c=new VerilatedContext; d->c->randReset(mode); d->c->randSeed(seed?seed:1); d->m=new Vdut(d->c); d->m->clk=0; d->m->eval(); return d; }
void dut_del(void*p){ D*d=(D*)p; delete d->m; delete d->c; delete d; }
/* flags: 1 reset, 2 want req, 4 resp_rdy, 8 mreq_rdy, 16 mresp valid.
   result: 1 req_rdy, 2 resp_en, 4 mreq_en, 8 mresp_rdy */
int dut_step(void*p,int fl,const u32*req,const u32*mresp,u32*resp,u32*mreq){
  Vdut*m=((D*)p)->m;
  m->clk=0;
  m->reset=fl&1;
  m->MI(resp___05Frdy)=(fl>>2)&1;
  m->MA(req___05Frdy)=(fl>>3)&1;
  put(m->MA(resp___05Fmsg),mresp);
  put(m->MI(req___05Fmsg),req);
  m->MI(req___05Fen)=0;
  m->MA(resp___05Fen)=(fl>>4)&1;
  m->eval();
  int rr=m->MI(req___05Frdy)&1, mr=m->MA(resp___05Frdy)&1;
  if((fl&16)&&!mr) m->MA(resp___05Fen)=0;
  if((fl&2)&&rr&&!(fl&1)) m->MI(req___05Fen)=1;
  m->eval();
  int r=rr|(mr<<3);
  if(m->MI(resp___05Fen)&1){r|=2;get(m->MI(resp___05Fmsg),resp);}
  if(m->MA(req___05Fen)&1){r|=4;get(m->MA(req___05Fmsg),mreq);}
  m->clk=1; m->eval();
  return r;
}
}
'''

VROOT = '/usr/share/verilator'
VFLAGS = ['--cc', '--prefix', 'Vdut', '--Mdir', 'obj', '-O3', '--x-assign', 'unique', '--x-initial', 'unique',
          '-Wno-fatal', '-Wno-lint', '-Wno-style', '-Wno-UNOPTFLAT', '--unroll-count', '4096', '--unroll-stmts', '2000000']


def cache_dir():
  d = os.environ.get('VERIF_VCACHE') or os.path.join(
      os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build', 'vcache')
  os.makedirs(d, exist_ok=True)
  return d


def translate(cfg):
  """PyMTL3 -> Verilog text of this geometry (raises DutError)."""
  if os.environ.get('VERIF_NOVERILOG'):
    raise DutError('no Verilog (VERIF_NOVERILOG)')
  old = os.getcwd()
  tmp = tempfile.mkdtemp(prefix='vtr_')
  try:
    os.chdir(tmp)
    from pymtl3.passes.backends.verilog import VerilogTranslationPass, VerilogPlaceholderPass
    m = elaborate(cfg)
    m.apply(VerilogPlaceholderPass())
    m.set_metadata(VerilogTranslationPass.enable, True)
    m.apply(VerilogTranslationPass())
    fn = m.get_metadata(VerilogTranslationPass.translated_filename)
    top = m.get_metadata(VerilogTranslationPass.translated_top_module)
    return open(fn).read(), top
  except Exception as e:
    raise DutError('Verilog translation of %r failed: %s: %s' % (cfg, type(e).__name__, str(e)[:500]))
  finally:
    os.chdir(old)
    shutil.rmtree(tmp, ignore_errors=True)


def cli(cfg, macros=False, default=False):
  """The Verilog that blocking_cache/translate.py writes -> text, top."""
  tmp = tempfile.mkdtemp(prefix='vcli_')
  try:
    a = [] if default else ['--size', cfg.nbytes, '--clw', cfg.clw, '--dbw', cfg.dbw, '--abw', cfg.abw,
                            '--obw', cfg.obw, '--asso', cfg.asso]
    if macros:
      a.append('--replace-sram')
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(REPO, 'blocking_cache', 'translate.py')]
                       + [str(x) for x in a], cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    fs = sorted(f for f in os.listdir(tmp) if f.endswith(('.v', '.sv')))
    if r.returncode != 0 or len(fs) != 1:
      raise DutError('translate.py %s: exit %d, files %s: %s' % (' '.join(map(str, a)), r.returncode, fs, r.stdout[-400:]))
    text = open(os.path.join(tmp, fs[0])).read()
    tops = re.findall(r'^module\s+(BlockingCache_\w+)', text, re.M)
    tops = [t for t in tops if t.startswith('BlockingCache_%d_%d' % (cfg.nbytes, cfg.clw))] or tops
    if not tops:
      raise DutError('translate.py %s: no BlockingCache module in its output' % ' '.join(map(str, a)))
    return text + (MACROS if macros else ''), tops[0]
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


# behavioural stand-ins for the SRAM macros the wrapper instantiates but for
# which the repository ships no model (same contract as the two it ships)
MACROS = ''.join("""
module sram_%(n)dx%(b)d
( input logic CLK, input logic CEN, input logic RDWEN, input logic [%(a)d:0] A, input logic [%(h)d:0] D,
  input logic [%(h)d:0] BW, input logic T_LOGIC, input logic T_Q_RST, output logic [%(h)d:0] Q,
  output logic [1:0] OBSV_CTL, input logic MA_SAWL, input logic MA_WL, input logic MA_VD1, input logic MA_VD0,
  input logic MA_WRT );
  logic [%(h)d:0] ram [0:%(n)d-1];
  always_ff @(posedge CLK) begin
    Q <= (!CEN && RDWEN) ? ram[A] : 0;
    if (!CEN && !RDWEN) ram[A] <= (ram[A] & ~BW) | (D & BW);
  end
endmodule
""" % dict(n=n, b=b, h=b - 1, a=(n - 1).bit_length() - 1) for n, b in ((512, 128), (256, 25)))


class BuildError(Exception):
  """Verilator or g++ refused the generated Verilog."""


GXX = ['-std=gnu++17', '-O1', '-fPIC', '-w', '-DVM_COVERAGE=0', '-DVM_SC=0', '-DVM_TRACE=0']
INC = ['-I' + VROOT + '/include', '-I' + VROOT + '/include/vltstd']


def runtime():
  """Verilator's own run-time library, compiled once per cache directory."""
  out = []
  for n in ('verilated', 'verilated_threads'):
    o = os.path.join(cache_dir(), 'rt_%s.o' % n)
    if not os.path.exists(o):
      t = o + '.%d.o' % os.getpid()
      r = subprocess.run(['g++', *GXX, *INC, '-c', '%s/include/%s.cpp' % (VROOT, n), '-o', t],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      if r.returncode != 0:
        raise BuildError(r.stdout[-2000:])
      os.replace(t, o)
    out.append(o)
  return out


def build(cfg, how='v'):
  """-> path of a shared object for this geometry.
  how: v = PyMTL3's translation of BlockingCacheRTL, c = what translate.py
  writes (C: without options), s = translate.py --replace-sram"""
  text, top = translate(cfg) if how == 'v' else cli(cfg, how == 's', how == 'C')
  return compile_so(text, top, SHIM)


def compile_so(text, top, shim):
  """Verilog + C++ shim -> shared object (content-addressed cache)."""
  # generated Verilog quotes the Python source in comments
  text = re.sub(r'//[^\n]*', '', text)
  h = hashlib.sha256((text + top + shim + repr(VFLAGS)).encode()).hexdigest()[:24]
  so = os.path.join(cache_dir(), h + '.so')
  if os.path.exists(so):
    return so
  tmp = tempfile.mkdtemp(prefix='vbuild_')
  try:
    open(os.path.join(tmp, 'dut.v'), 'w').write(text)
    open(os.path.join(tmp, 'shim.cpp'), 'w').write(shim)
    def run(cmd):
      r = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-2000:]))
    run(['verilator', 'dut.v', '--top-module', top, *VFLAGS])
    srcs = sorted(os.path.join('obj', f) for f in os.listdir(os.path.join(tmp, 'obj'))
                  if f.endswith('.cpp') and not f.endswith('__ALL.cpp'))
    allc = ''.join('#include "%s"\n' % f for f in srcs) + '#include "shim.cpp"\n'
    open(os.path.join(tmp, 'all.cpp'), 'w').write(allc)
    run(['g++', *GXX, '-I.', '-Iobj', *INC, '-c', 'all.cpp', '-o', 'all.o'])
    run(['g++', '-shared', 'all.o', *runtime(), '-o', 'dut.so', '-lpthread', '-latomic'])
    t = so + '.%d' % os.getpid()
    shutil.copy(os.path.join(tmp, 'dut.so'), t)
    os.replace(t, so)
    return so
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


class VDut(DutBase):
  kind = 'verilog'
  def __init__(s, cfg, so=None, rand_init=0):
    """rand_init: 0 = registers and SRAMs power up as zero, else a seed"""
    s._fmts(cfg)
    s.so = so or build(cfg)
    s.lib = ctypes.CDLL(s.so)
    s.lib.dut_new.restype = ctypes.c_void_p
    s.lib.dut_step.argtypes = [ctypes.c_void_p, ctypes.c_int] + [ctypes.c_char_p] * 2 + [ctypes.c_void_p] * 2
    s.lib.dut_del.argtypes = [ctypes.c_void_p]
    s.lib.dut_new.argtypes = [ctypes.c_int, ctypes.c_int]
    s.h = s.lib.dut_new(2 if rand_init else 0, rand_init & 0x7fffffff)
    pad = lambda n: ((n + 63) // 64) * 8 + 8
    s.nq, s.np = pad(s.cq.nbits), pad(s.mp.nbits)
    s.bresp = ctypes.create_string_buffer(pad(s.cp.nbits))
    s.bmreq = ctypes.create_string_buffer(pad(s.mq.nbits))
  def step(s, reset, req, req_idle, resp_rdy, mreq_rdy, mresp, mresp_idle):
    fl = reset | (2 if req is not None else 0) | (resp_rdy << 2) | (mreq_rdy << 3) | (16 if mresp is not None else 0)
    a = (req_idle if req is None else req).to_bytes(s.nq, 'little')
    b = (mresp_idle if mresp is None else mresp).to_bytes(s.np, 'little')
    r = s.lib.dut_step(s.h, fl, a, b, s.bresp, s.bmreq)
    rv = mv = 0
    if r & 2:
      rv = int.from_bytes(s.bresp.raw, 'little') & ((1 << s.cp.nbits) - 1)
    if r & 4:
      mv = int.from_bytes(s.bmreq.raw, 'little') & ((1 << s.mq.nbits) - 1)
    return (r & 1, (r >> 1) & 1, rv, (r >> 2) & 1, mv, (r >> 3) & 1)
  def __del__(s):
    try:
      s.lib.dut_del(s.h)
    except Exception:
      pass
