"""C20: the SRAM models are one synchronous memory (spec/SramTrace).

SramPRTL in PyMTL3 simulation and as Verilog, and the wrapper around the hard
macros that translate.py --replace-sram puts in its place."""
import os, random, tempfile, shutil, ctypes
import dut, engine, pool
from dut import DutError, REPO

SHIM = r'''
#include "Vdut.h"
#include "verilated.h"
#include <cstdint>
typedef uint32_t u32;
static inline void put(CData& d,const u32*p){d=(CData)p[0];}
static inline void put(SData& d,const u32*p){d=(SData)p[0];}
static inline void put(IData& d,const u32*p){d=p[0];}
static inline void put(QData& d,const u32*p){d=(QData)p[0]|((QData)p[1]<<32);}
template<std::size_t N> static inline void put(VlWide<N>& d,const u32*p){for(size_t i=0;i<N;i++)d[i]=p[i];}
static inline void get(const CData& d,u32*p){p[0]=d;}
static inline void get(const SData& d,u32*p){p[0]=d;}
static inline void get(const IData& d,u32*p){p[0]=d;}
static inline void get(const QData& d,u32*p){p[0]=(u32)d;p[1]=(u32)(d>>32);}
template<std::size_t N> static inline void get(const VlWide<N>& d,u32*p){for(size_t i=0;i<N;i++)p[i]=d[i];}
struct D { VerilatedContext* c; Vdut* m; };
extern "C" {
void* dut_new(int seed){ D*d=new D; d->c=new VerilatedContext; d->c->randReset(seed?2:0); d->c->randSeed(seed?seed:1); d->m=new Vdut(d->c); d->m->clk=0; d->m->eval(); return d; }
void dut_del(void*p){ D*d=(D*)p; delete d->m; delete d->c; delete d; }
void dut_step(void*p,int val,int ty,u32 a,const u32*w,const u32*en,u32*q){
  Vdut*m=((D*)p)->m;
  m->clk=0; m->reset=0;
  m->port0_val=val; m->port0_type=ty; m->port0_idx=a;
  put(m->port0_wdata,w); put(m->port0_wben,en);
  m->eval();
  get(m->port0_rdata,q);
  m->clk=1; m->eval();
}
}
'''

WRAP = """
module sramtop( input logic clk, input logic reset, input logic port0_val, input logic port0_type,
  input logic [%(a)d:0] port0_idx, input logic [%(h)d:0] port0_wdata, input logic [%(h)d:0] port0_wben,
  output logic [%(h)d:0] port0_rdata );
  SramGenericPRTL #(.num_bits(%(b)d), .num_words(%(n)d)) sram
   ( .A1(port0_idx), .CE1(clk), .CSB1(~port0_val), .I1(port0_wdata), .O1(port0_rdata), .OEB1(1'b0),
     .WBM1(port0_wben), .WEB1(~port0_type), .clk(clk), .reset(reset) );
endmodule
"""


def verilog(how, bits, words):
  if how == 'w':      # the hard-macro wrapper
    t = open(os.path.join(REPO, 'sram', 'brg_gf14_sram_generic_synopsys.v')).read()
    return t + dut.MACROS + WRAP % dict(a=(words - 1).bit_length() - 1, h=bits - 1, b=bits, n=words), 'sramtop'
  tmp, old = tempfile.mkdtemp(prefix='vsr_'), os.getcwd()
  try:
    os.chdir(tmp)
    from pymtl3.passes.backends.verilog import VerilogTranslationPass, VerilogPlaceholderPass
    from sram.SramPRTL import SramPRTL
    m = SramPRTL(bits, words)
    m.elaborate()
    m.apply(VerilogPlaceholderPass())
    m.set_metadata(VerilogTranslationPass.enable, True)
    m.apply(VerilogTranslationPass())
    return (open(m.get_metadata(VerilogTranslationPass.translated_filename)).read(),
            m.get_metadata(VerilogTranslationPass.translated_top_module))
  finally:
    os.chdir(old)
    shutil.rmtree(tmp, ignore_errors=True)


class VSram:
  def __init__(s, how, bits, words, seed):
    try:
      so = dut.compile_so(*verilog(how, bits, words), SHIM)
    except Exception as e:
      raise DutError('Verilog of the %dx%d SRAM: %s: %s' % (bits, words, type(e).__name__, str(e)[:500]))
    s.lib = ctypes.CDLL(so)
    s.lib.dut_new.restype = ctypes.c_void_p
    s.lib.dut_step.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_uint32] + [ctypes.c_char_p] * 2 + [ctypes.c_void_p]
    s.lib.dut_del.argtypes = [ctypes.c_void_p]
    s.h = s.lib.dut_new(seed & 0x7fffffff)
    s.n = ((bits + 63) // 64) * 8 + 8
    s.q = ctypes.create_string_buffer(s.n)
    s.m = (1 << bits) - 1
  def step(s, val, ty, a, w, en):
    s.lib.dut_step(s.h, val, ty, a, w.to_bytes(s.n, 'little'), en.to_bytes(s.n, 'little'), s.q)
    return int.from_bytes(s.q.raw, 'little') & s.m
  def close(s):
    s.lib.dut_del(s.h)


class PSram:
  def __init__(s, bits, words):
    try:
      from pymtl3 import DefaultPassGroup
      from sram.SramPRTL import SramPRTL
      s.m = SramPRTL(bits, words)
      s.m.elaborate()
      s.m.apply(DefaultPassGroup())
      s.m.sim_reset()
    except Exception as e:
      raise DutError('SramPRTL(%d,%d): %s: %s' % (bits, words, type(e).__name__, str(e)[:400]))
  def step(s, val, ty, a, w, en):
    try:
      m = s.m
      m.port0_val @= val
      m.port0_type @= ty
      m.port0_idx @= a
      m.port0_wdata @= w
      m.port0_wben @= en
      m.sim_eval_combinational()
      q = int(m.port0_rdata)
      m.sim_tick()
      return q
    except Exception as e:
      raise DutError('SramPRTL: %s: %s' % (type(e).__name__, str(e)[:400]))
  def close(s):
    pass


def bits_of(v, n):
  return [(v >> k) & 1 for k in range(n)]


def case(item):
  tid, how, bits, words, seed, n = item
  rng = random.Random(seed)
  d = PSram(bits, words) if how == 'p' else VSram(how, bits, words, seed)
  base = rng.randrange(words)
  hot = [rng.randrange(words), 0, words - 1, base] + [base ^ (1 << k) for k in range((words - 1).bit_length())]
  full = (1 << bits) - 1
  ev = []
  p_idle, p_wr = rng.choice([(.1, .5), (.4, .5), (.1, .2), (0, .7)])
  for c in range(n):
    val = 0 if rng.random() < p_idle else 1
    ty = 1 if rng.random() < p_wr else 0
    a = rng.choice(hot) if rng.random() < .8 else rng.randrange(words)
    w = rng.getrandbits(bits)
    r = rng.random()
    en = full if r < .3 else 0 if r < .35 else (1 << rng.randrange(bits)) if r < .55 else \
        full ^ (1 << rng.randrange(bits)) if r < .7 else rng.getrandbits(bits)
    q = d.step(val, ty, a, w, en)
    ev.append(dict(val=val, ty=ty, a=a, d=bits_of(w, bits), en=bits_of(en, bits), q=bits_of(q, bits)))
  d.close()
  return dict(id=tid, bits=bits, ev=ev)


SIZES = [(26, 128), (25, 256), (128, 256), (128, 512), (8, 4), (32, 16), (29, 2), (64, 32), (16, 64), (1, 8), (33, 16), (512, 4)]


def check(cid, tier, seed, work):
  q = tier == 'quick'
  items = []
  rng = random.Random(engine.case_seed(seed, 'sram sizes'))
  sizes = list(SIZES)
  while len(sizes) < len(SIZES) + (4 if q else 60):
    x = (rng.choice([rng.randrange(1, 70), rng.randrange(1, 300)]), 1 << rng.randrange(1, 9))
    if x not in sizes and x[0] * x[1] <= 16384:
      sizes.append(x)
  for bits, words in sizes:
    for how in 'pvw':
      if how == 'p' and bits * words > 4096:
        k, n = (1, 60) if q else (4, 200)
      elif how == 'p':
        k, n = (2, 250) if q else (10, 500)
      else:
        k, n = (4, 500) if q else (40, 1000)
      for j in range(k):
        items.append(('sram.%s.%dx%d.%d' % (how, bits, words, j), how, bits, words, engine.case_seed(seed, how, bits, words, j), n))
  # warm the build cache (one build per design, not one per trace)
  import multiprocessing as mp
  with mp.get_context('fork').Pool(engine.NPROC) as p:
    p.starmap(_warm, [(h, b, w) for b, w in sizes for h in 'vw'])
  r = pool.run(case, items, 'SramTrace', work, 'sram')
  viol = [dict(property=cid, trace=it[0], replay='sramck', item=list(it), clauses=sorted(cl)) for it, cl in sorted(r['viol'])]
  cov = dict(states=r['states'], transitions=r['gen'], traces_validated_against_impl=r['n'], cycles=r['events'],
             sizes=[list(x) for x in sizes], backends=['SramPRTL in PyMTL3', 'SramPRTL as Verilog', 'hard-macro wrapper'],
             clauses=['sram.read'], samples=[list(items[0])])
  return (1 if viol else 0), cov, viol


def _warm(h, b, w):
  try:
    dut.runtime()
    dut.compile_so(*verilog(h, b, w), SHIM)
  except Exception:
    pass


def replay(v):
  return 'SramTrace', lambda: case(v['item'])
