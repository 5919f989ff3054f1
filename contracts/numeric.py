"""Contracts for the utility parameters and the drawing geometry."""
from pyvc.core import *   # pylint: disable=wildcard-import
from pyvc.engine import Contract
import z3
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.tree_structure import packed_sequence_nodes as ps
from r_u_sure.wrappers import uncertainty_regions_wrapper as urw
from r_u_sure.rendering import rendering as rd

PARAMS = NT(ed.TrustRegionUtilityParameters, *[REAL] * len(
    ed.TrustRegionUtilityParameters._fields))
NODE_UTIL = NT(ed.UtilitiesAndCostsForNode, *[REAL] * len(
    ed.UtilitiesAndCostsForNode._fields))
PTOK = NT(ps.PackedTextTokenNode, STR, ANY)


def fields(v):
  return {f: x.e for f, x in zip(v.cls._fields, v.items)}


def _derive(c):
  p, h, s = (c.a(n).e for n in (
      'effective_precision', 'high_confidence_start_editing_cost',
      'low_confidence_edit_sensitivity'))
  f = fields(c.res)
  hm, hd = (f['high_confidence_match_utility_per_char'],
            f['high_confidence_delete_cost_per_char'])
  lm, ld = (f['low_confidence_match_utility_per_char'],
            f['low_confidence_delete_cost_per_char'])
  hs, ls, rc = (f['high_confidence_start_editing_cost'],
                f['low_confidence_start_editing_cost'],
                f['low_confidence_region_cost'])
  n, q = z3.Real('length'), z3.Real('probability')

  def hi(x):
    return x * n * hm - (1 - x) * (n * hd + hs)

  def lo(x):
    return x * n * lm - (1 - x) * (n * ld + ls) - rc
  return [
      ('unit scale', z3.And(hm == 1, hd == 1,
                            f['insert_cost_per_char'] == 0, hs == h)),
      ('edits in low confidence cost s times as much',
       z3.And(lm + ld == s * (hm + hd), ls == s * hs)),
      ('break even at the effective precision for every length',
       hi(p) == lo(p)),
      ('difference is (q-p)(1-s)(2n+h)',
       hi(q) - lo(q) == (q - p) * ((1 - s) * (2 * n + h))),
      ('region cost not negative', rc >= 0)]


POINT = ('inst', rd.Point, (('x', REAL), ('y', REAL)))
BOX = ('inst', rd.BoundingBox, (('left', REAL), ('top', REAL),
                                ('width', REAL), ('height', REAL)))


def at(c, v, f):
  return c.st.insts[v.ref][f].e


def edges(c, v):
  l, t, w, h = (at(c, v, f) for f in ('left', 'top', 'width', 'height'))
  return l, t, l + w, t + h


def _union(c):
  a, b, r = (edges(c, v) for v in (c.a('self'), c.a('other'), c.res))
  lo, hi = (lambda x, y: z3.If(x <= y, x, y)), (
      lambda x, y: z3.If(x >= y, x, y))
  return [('smallest enclosing box', z3.And(
      r[0] == lo(a[0], b[0]), r[1] == lo(a[1], b[1]),
      r[2] == hi(a[2], b[2]), r[3] == hi(a[3], b[3])))]


def contracts():
  cs = []
  add = cs.append
  add(Contract(
      urw.derive_uncertainty_region_costs,
      {'effective_precision': REAL,
       'high_confidence_start_editing_cost': REAL,
       'low_confidence_edit_sensitivity': REAL}, PARAMS, _derive,
      requires=lambda c: [
          ('precision', z3.And(c.a('effective_precision').e >= 0,
                               c.a('effective_precision').e <= 1)),
          ('sensitivity', z3.And(
              c.a('low_confidence_edit_sensitivity').e >= 0,
              c.a('low_confidence_edit_sensitivity').e <= 1)),
          ('cost', c.a('high_confidence_start_editing_cost').e >= 0)]))
  add(Contract(
      ed.token_node_utility_from_parameters,
      {'parameters': PARAMS, 'token': PTOK}, NODE_UTIL,
      lambda c: [(f, x.e == fields(c.a('parameters'))[f + '_per_char'] *
                  z3.ToReal(z3.Length(c.a('token').items[0].e)))
                 for f, x in zip(c.res.cls._fields, c.res.items)]))
  box = lambda fn, params, res, ens, req=None: add(
      Contract(fn, {'self': BOX, **params}, res, ens, requires=req))
  fget = lambda n: getattr(rd.BoundingBox, n).fget
  box(fget('right'), {}, REAL, lambda c: [
      ('right edge', c.res.e == edges(c, c.a('self'))[2])])
  box(fget('bottom'), {}, REAL, lambda c: [
      ('bottom edge', c.res.e == edges(c, c.a('self'))[3])])
  mid = lambda c, i: (edges(c, c.a('self'))[i] + edges(
      c, c.a('self'))[i + 2]) / 2
  box(fget('horizontal_center'), {}, REAL, lambda c: [
      ('half way', c.res.e == mid(c, 0))])
  box(fget('vertical_center'), {}, REAL, lambda c: [
      ('half way', c.res.e == mid(c, 1))])
  box(fget('center_point'), {}, POINT, lambda c: [
      ('half way', z3.And(at(c, c.res, 'x') == mid(c, 0),
                          at(c, c.res, 'y') == mid(c, 1)))])
  box(rd.BoundingBox.point_within,
      {'toward_right': REAL, 'toward_bottom': REAL}, POINT, lambda c: [
          ('fraction of the edges', z3.And(
              at(c, c.res, 'x') == at(c, c.a('self'), 'left') +
              c.a('toward_right').e * at(c, c.a('self'), 'width'),
              at(c, c.res, 'y') == at(c, c.a('self'), 'top') +
              c.a('toward_bottom').e * at(c, c.a('self'), 'height')))])
  box(rd.BoundingBox.union, {'other': BOX}, BOX, _union)
  add(Contract(
      rd.BoundingBox.from_boundary,
      {'cls': ('py', rd.BoundingBox), 'left': REAL, 'top': REAL,
       'right': REAL, 'bottom': REAL}, BOX,
      lambda c: [('edges', z3.And(*[
          x == c.a(n).e for n, x in zip(
              ('left', 'top', 'right', 'bottom'), edges(c, c.res))]))]))
  add(Contract(
      rd.Point.shift, {'self': POINT, 'dx': REAL, 'dy': REAL}, POINT,
      lambda c: [('shifted', z3.And(
          at(c, c.res, 'x') == at(c, c.a('self'), 'x') + c.a('dx').e,
          at(c, c.res, 'y') == at(c, c.a('self'), 'y') + c.a('dy').e))]))
  add(Contract(
      rd.to_bounded_irrational, {'index': INT}, REAL,
      lambda c: [('between 0 and 1', z3.And(c.res.e >= 0, c.res.e < 1))]))
  return cs
