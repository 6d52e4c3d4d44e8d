"""The checks: for each property, which profiles and geometries are explored
and which clauses of the specification its verdict is made of."""
from profiles import G, PIPE

DATA = {'data.read'}
# plan: (profile, geometry letters for Verilog, traces each, geometry letters for PyMTL, traces each)

LOST = {'wb.missing', 'wb.mask_missing', 'wb.data', 'flush.mask_missing', 'flush.left_dirty', 'flush.stale_mem',
        'data.read', 'amo.stale'}
WB = {'wb.extra', 'wb.missing', 'wb.addr', 'wb.mask_extra', 'wb.mask_missing', 'wb.clean_word', 'wb.data',
      'flush.mask_extra', 'flush.mask_missing', 'flush.bogus', 'flush.line', 'form.align', 'form.len'}
PROTO = {'proto.unsolicited', 'proto.type', 'proto.opaque', 'proto.len', 'proto.zero', 'live.response'}
HIT = {'hit.false_miss', 'hit.false_hit', 'hit.nonrw'}
TRAFFIC = {'fetch.extra', 'fetch.addr', 'wb.extra', 'amo.extra', 'form.align', 'form.len', 'form.type',
           'form.blocking', 'form.opaque', 'traffic.missing', 'flush.bogus'}
FLOW = {'flow.mreq', 'flow.resp'}
FLUSHC = {'flush.bogus', 'flush.line', 'flush.mask_extra', 'flush.mask_missing', 'flush.left_dirty', 'flush.early',
          'flush.stale_mem'}
AMO = {'amo.extra', 'amo.type', 'amo.addr', 'amo.len', 'amo.operand', 'amo.stale', 'data.amo', 'hit.nonrw'}
LIVE = {'live.response', 'live.hang'}
TIME = {'time.bubble', 'time.hit'}
MISSTIME = {'time.mreq', 'time.miss', 'time.next', 'time.inv', 'time.flush', 'time.reset'}
FUNC = PROTO | HIT | WB | TRAFFIC | FLUSHC | AMO | DATA | LOST

CHECKS = {
  'C01': dict(clauses=DATA | {'data.amo'},
              plan=[('p_all', 'abcdefgh', 90, 'adc', 2), ('p_conflict', 'adbh', 60, 'a', 2), ('p_rw', 'ijk', 50, '', 0),
                    ('p_pipew', 'l', 385, '', 0), ('p_pipe', 'a', 150, '', 0),
                    ('p_long', 'ac', 3, '', 0)]),
  'C02': dict(clauses=PROTO,
              plan=[('p_all', 'abdeimn', 110, 'ae', 3), ('p_harsh', 'acf', 70, 'a', 2),
                    ('p_pipe', 'l', 376, '', 0), ('p_pipe', 'a', 150, '', 0),
                    ('p_long', 'an', 3, '', 0)]),
  'C03': dict(clauses=HIT,
              plan=[('p_lru', 'acdgjh', 130, 'ad', 3), ('p_lru', 'blo', 60, 'b', 1), ('p_inv', 'aj', 60, 'a', 1),
                    ('p_tour', 'a', 104, 'a', 1), ('p_tour', 'b', 2, '', 0),
                    ('p_pipe', 'a', 150, '', 0), ('p_pipes', 'l', 120, '', 0),
                    ('p_long', 'adk', 3, '', 0)]),
  'C04': dict(clauses=TRAFFIC,
              plan=[('p_all', 'abcdeh', 100, 'ad', 2), ('p_quiet', 'agf', 60, 'a', 1), ('p_inv', 'ac', 60, 'c', 1),
                    ('p_tour', 'c', 104, '', 0),
                    ('p_long', 'ae', 3, '', 0)]),
  'C05': dict(clauses=WB,
              plan=[('p_wb', 'abcdehi', 110, 'ade', 2), ('p_conflict', 'ach', 60, 'a', 1),
                    ('p_tour', 'h', 104, '', 0),
                    ('p_pipew', 'r', 200, '', 0), ('p_pipes', 'a', 100, '', 0),
                    ('p_long', 'ah', 3, '', 0)]),
  'C06': dict(clauses=LOST | {'traffic.missing'},
              plan=[('p_wb', 'abdefi', 80, 'ad', 2), ('p_inv', 'acdh', 60, 'a', 2), ('p_sweep', 'gko', 30, '', 0),
                    ('p_tour', 'a', 104, '', 0), ('p_tour', 'b', 2, '', 0),
                    ('p_pipes', 'a', 150, '', 0), ('p_pipew', 'l', 200, '', 0),
                    ('p_long', 'ad', 3, '', 0)]),
  'C07': dict(clauses=AMO | HIT | DATA | {'wb.missing', 'wb.mask_missing', 'wb.data', 'wb.extra', 'traffic.missing'},
              plan=[('p_amo', 'abcdehj', 110, 'ade', 2),
                    ('p_tour', 'd', 104, '', 0), ('p_tour', 'b', 2, '', 0),
                    ('p_pipe', 'd', 200, '', 0),
                    ('p_long', 'b', 3, '', 0)]),
  'C08': dict(clauses=HIT | DATA | PROTO | {'wb.missing', 'wb.mask_missing', 'wb.data', 'wb.extra', 'fetch.extra',
                                            'fetch.addr', 'flush.left_dirty', 'flush.mask_missing', 'flush.line',
                                            'amo.extra', 'traffic.missing', 'amo.stale', 'wb.clean_word', 'live.hang'},
              plan=[('p_inv', 'abcdehj', 110, 'ade', 2),
                    ('p_tour', 'c', 104, '', 0), ('p_tour', 'e', 2, '', 0),
                    ('p_pipe', 'a', 150, '', 0), ('p_pipew', 'l', 150, '', 0),
                    ('p_long', 'c', 3, '', 0)]),
  'C09': dict(clauses=FLUSHC | HIT | {'data.read', 'traffic.missing', 'live.response', 'live.hang', 'wb.data',
                                      'wb.clean_word', 'wb.extra', 'proto.zero'},
              plan=[('p_flush', 'abcdehg', 90, 'ade', 2), ('p_sweep', 'gkno', 30, '', 0),
                    ('p_tour', 'a', 104, '', 0), ('p_tour', 'b', 2, '', 0),
                    ('p_pipes', 'a', 200, '', 0), ('p_pipe', 'l', 150, '', 0),
                    ('p_long', 'ah', 3, '', 0)]),
  'C10': dict(clauses=FLOW | PROTO | TRAFFIC | WB | AMO | {'live.hang', 'data.read', 'hit.false_miss', 'hit.false_hit'},
              plan=[('p_block', 'abdefh', 100, 'ad', 2), ('p_harsh', 'ac', 80, 'c', 2),
                    ('p_pipe', 'l', 376, '', 0), ('p_pipe', 'a', 250, '', 0),
                    ('p_long', 'ad', 5, '', 0)]),
  'C11': dict(clauses=FUNC,
              plan=[('p_harsh', 'abcdeh', 90, 'ad', 2), ('p_quiet', 'ad', 60, 'a', 1), ('p_block', 'ac', 50, '', 0),
                    ('p_tour', 'd', 104, '', 0),
                    ('p_pipe', 'l', 376, '', 0), ('p_pipew', 'r', 200, '', 0), ('p_pipe', 'a', 250, '', 0),
                    ('p_pipes', 'l', 150, '', 0),
                    ('p_long', 'ac', 4, '', 0)]),
  'C12': dict(clauses=LIVE | {'traffic.missing'},
              plan=[('p_block', 'abcde', 80, 'ad', 2), ('p_all', 'abl', 60, 'a', 2), ('p_flush', 'gk', 30, '', 0),
                    ('p_pipe', 'l', 376, '', 0), ('p_pipe', 'a', 200, '', 0),
                    ('p_long', 'alk', 4, '', 0)]),
  'C13': dict(clauses=FUNC | LIVE,
              plan=[('p_reset', 'abcdehg', 90, 'ad', 3), ('p_powerup', 'abkj', 30, '', 0),
                    ('p_pipereset', 'lar', 80, '', 0)]),
  'C14': dict(clauses=DATA | {'wb.data', 'wb.mask_missing', 'wb.mask_extra', 'wb.clean_word', 'flush.mask_missing',
                              'flush.mask_extra', 'flush.stale_mem', 'flush.left_dirty', 'wb.missing'},
              plan=[('p_wide', 'acdefhijp', 90, 'ade', 2)]),
  'C15': dict(clauses=DATA | {'fetch.addr', 'wb.addr', 'flush.line', 'form.align', 'amo.addr', 'hit.false_hit'},
              plan=[('p_tags', 'abdegjkno', 80, 'an', 2),
                    ('p_long', 'nj', 3, '', 0)]),
  'C16': dict(clauses=DATA | {'data.amo', 'amo.stale', 'wb.clean_word', 'wb.data', 'wb.mask_extra',
                              'wb.mask_missing', 'flush.left_dirty', 'flush.mask_extra', 'flush.mask_missing',
                              'wb.missing', 'traffic.missing', 'flush.early', 'flush.stale_mem'},
              plan=[('p_multi', 'abcdehj', 70, 'ad', 1)]),
  'C17': dict(clauses=TIME,
              plan=[('p_calm', 'abcdeh', 80, 'ade', 2), ('p_hitstream', 'acdg', 60, 'a', 1),
                    ('p_calmlong', 'ad', 3, '', 0)]),
  'C21': dict(clauses=DATA | {'wb.data', 'wb.mask_missing', 'wb.mask_extra', 'wb.clean_word', 'flush.mask_missing',
                              'flush.mask_extra', 'flush.stale_mem', 'flush.left_dirty', 'wb.missing'},
              plan=[('p_dword', 'abchr', 110, 'ac', 2)]),
  'C23': dict(clauses=MISSTIME,
              plan=[('p_calmmiss', 'abcdehgj', 90, 'ade', 2), ('p_calmsweep', 'gko', 25, '', 0),
                    ('p_calmlong', 'al', 3, '', 0)]),
}


def pipe_ok(prof, g):
  return g.ns == 2 and (g.asso, 'p_pipe' if prof == 'p_pipereset' else prof) in PIPE


def plan_for(cid, tier):
  out = []
  mult = 1 if tier == 'quick' else 10
  for prof, gv, nv, gp, npy in CHECKS[cid]['plan']:
    for c in gv:
      out.append((prof, G[c], 'v', nv * mult))
    for c in gp:
      out.append((prof, G[c], 'p', npy * mult))
  if tier != 'quick':
    for prof, gv, nv, gp, npy in CHECKS[cid]['plan']:
      for c in sorted(G):
        if c not in gv and c in 'abcdefghijklmnopqr':
          if prof == 'p_dword' and G[c].dbw != 32:
            continue
          if prof.startswith('p_pipe') and not pipe_ok(prof, G[c]):
            continue
          out.append((prof, G[c], 'v', nv * 2))
  return out
