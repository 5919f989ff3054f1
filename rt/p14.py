"""Runtime contracts of the rendering geometry and the SVG output."""
import html.parser
import itertools
import re
from rt.core import *   # pylint: disable=wildcard-import
from r_u_sure.rendering import rendering as R
from r_u_sure.rendering import svg_renderer as S

SRC = ('r_u_sure/rendering/rendering.py', 'r_u_sure/rendering/svg_renderer.py')
NUMS = [0, 1, -1, 2, 3, 5, -4, 7, 10, -10, .5, .25, -2.5]


def rnum(rng):
  if rng.random() < .7:
    return rng.choice(NUMS)
  _, ints = mined(*SRC)
  if ints and rng.random() < .3:
    return rng.choice(ints)
  return rng.randint(-400, 400) / 4


def rbox(rng):
  return [rnum(rng), rnum(rng), abs(rnum(rng)), abs(rnum(rng))]


class Boxes(RC):
  name = 'bounding box algebra'
  targets = ('rendering.BoundingBox.*',)

  def exhaustive(self):
    vs = [-1, 0, 2]
    ws = [0, 1, 3]
    b = [list(x) for x in itertools.product(vs, vs, ws, ws)]
    for i, x in enumerate(b):
      for y in b[i % 3::3]:
        yield dict(a=x, b=y, p=[1, 2])

  def gen(self, rng, n):
    return dict(a=rbox(rng), b=rbox(rng), p=[rnum(rng), rnum(rng)])

  def check(self, case):
    a, b = R.BoundingBox(*case['a']), R.BoundingBox(*case['b'])
    if a.width < 0 or a.height < 0 or b.width < 0 or b.height < 0:
      raise Skip
    expect_eq((a.right, a.bottom), (a.left + a.width, a.top + a.height),
              'right/bottom')
    u = a.union(b)
    expect_eq((u.left, u.top, u.right, u.bottom),
              (min(a.left, b.left), min(a.top, b.top),
               max(a.right, b.right), max(a.bottom, b.bottom)), 'union')
    expect_eq(u, b.union(a), 'union is not commutative')
    expect_eq(a.union(a), a, 'union is not idempotent')
    c = a.center_point
    expect_eq((c.x, c.y), (a.left + a.width / 2, a.top + a.height / 2),
              'center')
    expect_eq((a.horizontal_center, a.vertical_center), (c.x, c.y), 'centers')
    expect_eq(R.BoundingBox.from_boundary(
        left=a.left, top=a.top, right=a.right, bottom=a.bottom), a,
              'from_boundary')
    p = a.point_within(case['p'][0], case['p'][1])
    expect_eq((p.x, p.y), (a.left + case['p'][0] * a.width,
                           a.top + case['p'][1] * a.height), 'point_within')
    q = p.shift(dx=case['p'][1], dy=case['p'][0])
    expect_eq((q.x, q.y), (p.x + case['p'][1], p.y + case['p'][0]), 'shift')
    expect_eq(p.shift(), p, 'shift by nothing')
    f, s = R.Point(a.left, a.top), R.Point(b.left, b.top)
    itp = R.point_interpolator(f, s)
    expect_eq(itp(0.0, 0.0), f, 'interpolation at 0')
    expect_eq(itp(1.0, 1.0), s, 'interpolation at 1')
    m = itp(.5, .25)
    expect_eq((m.x, m.y), (f.x + .5 * (s.x - f.x), f.y + .25 * (s.y - f.y)),
              'interpolation')


class Irr(RC):
  name = 'bounded irrational'
  targets = ('rendering.to_bounded_irrational',)
  weight = .2

  def exhaustive(self):
    for i in range(2000):
      yield dict(i=i)

  def gen(self, rng, n):
    return dict(i=rng.randint(-10**6, 10**9))

  def check(self, case):
    v = R.to_bounded_irrational(case['i'])
    expect(0 <= v < 1, 'out of [0, 1)', v)


TEXTS = ['', 'a', 'a\nb', '<b>', '&amp;', '</text>', '"q"', "it's", '<!--',
         '</svg><script>x</script>', 'a & b < c > d', '\n', 'x\n\ny',
         '</title>', '\u00e9\u4e2d', ']]>', '&lt;', "<g class='x'>"]
VOID = {'rect', 'path', 'circle'}


class Doc(html.parser.HTMLParser):
  """Element tree of the produced markup; self-closing SVG leaves."""

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack, self.events, self.text = [], [], []
    self.bad = []

  def handle_starttag(self, tag, attrs):
    self.events.append((tag, dict(attrs), []))
    self.stack.append(self.events[-1])

  def handle_startendtag(self, tag, attrs):
    self.events.append((tag, dict(attrs), []))

  def handle_endtag(self, tag):
    if not self.stack or self.stack[-1][0] != tag:
      self.bad.append(f'unexpected </{tag}>')
    else:
      self.stack.pop()

  def handle_data(self, data):
    if self.stack:
      self.stack[-1][2].append(data)

  def handle_comment(self, data):
    self.bad.append('comment')

  def handle_decl(self, decl):
    self.bad.append('declaration')


OPS = ['box', 'point', 'cont', 'line', 'dot', 'group']


class Svg(RC):
  name = 'SVG output escapes text and covers every item'
  targets = ('svg_renderer.SVGRenderer.*',)
  weight = 1.5

  def exhaustive(self):
    for o in OPS:
      for t in TEXTS:
        for h in (True, False):
          yield dict(ops=[[o, [1, 2, 3, 4], t, t, 2, 0]], pad=0, hover=h)
    for d in range(9):
      for t in ('a', 'a\nb', 'a\nb\nc'):
        yield dict(ops=[['point', [1, 2, 3, 4], t, None, 4, d]], pad=1,
                   hover=True)
    yield dict(ops=[], pad=0, hover=True)

  def gen(self, rng, n):
    ops = []
    for _ in range(rng.randint(0, 6)):
      t = rng.choice(TEXTS) if rng.random() < .8 else ''.join(
          rng.choice('<>&"\'a\n/;#') for _ in range(rng.randint(0, 9)))
      ops.append([rng.choice(OPS), rbox(rng), t,
                  rng.choice([None, t, rng.choice(TEXTS)]),
                  rng.choice([1, 2, 4, 10]), rng.randint(0, 8)])
    return dict(ops=ops, pad=rng.choice([0, 0, 1, 5]),
                hover=rng.random() < .7)

  def check(self, case):
    r = S.SVGRenderer(with_hover_text=case['hover'])
    xs = []
    want_text, want_hover = [], []
    elems = []
    nest = []
    labels = []
    for op in case['ops']:
      if len(op) != 6 or not isinstance(op[1], list) or len(op[1]) != 4 or \
          not isinstance(op[2], str) or not op[4]:
        raise Skip
      kind, b, t, h, ts, d = op
      if b[2] < 0 or b[3] < 0 or kind not in OPS:
        raise Skip
      box = R.BoundingBox(*b)
      pt = R.Point(b[0], b[1])
      if kind == 'box':
        h = h if h is not None else 'h'
        r.label_in_box(box, t, h, ts, style_tags=('s1', 's2'))
        xs.append((box.left, box.top, box.right, box.bottom))
        labels.append((len(want_text), len(t.split('\n')), box.center_point,
                       ts, 'box'))
        want_text += t.split('\n')
        elems.append(('rect', b))
      elif kind == 'point':
        dirs = list(R.PointDirection)
        r.label_at_point(pt, t, ts, dirs[d % len(dirs)], hover_text=h)
        xs.append((pt.x, pt.y, pt.x, pt.y))
        labels.append((len(want_text), len(t.split('\n')), pt, ts,
                       dirs[d % len(dirs)]))
        want_text += t.split('\n')
      elif kind == 'cont':
        h = None
        r.container(box)
        xs.append((box.left, box.top, box.right, box.bottom))
        elems.append(('rect', b))
      elif kind == 'line':
        ps = [pt, R.Point(b[2], b[3]), R.Point(b[1], b[0])]
        r.line(ps, hover_text=h)
        xs.append((min(p.x for p in ps), min(p.y for p in ps),
                   max(p.x for p in ps), max(p.y for p in ps)))
        elems.append(('path', ' '.join(
            f'{"ML"[bool(i)]} {p.x} {p.y}' for i, p in enumerate(ps))))
      elif kind == 'dot':
        r.dot(pt, hover_text=h)
        xs.append((pt.x, pt.y, pt.x, pt.y))
        elems.append(('circle', pt))
      elif kind == 'group':
        g = r.group(hover_text=h, style_tags=('grp',))
        g.__enter__()
        nest.append(g)
      if h is not None and case['hover']:
        want_hover.append(h)
    for g in reversed(nest):
      g.__exit__(None, None, None)
    out = r.to_html(padding=case['pad'])
    doc = Doc()
    doc.feed(out)
    doc.close()
    expect(not doc.bad, 'markup injected or unbalanced', doc.bad)
    expect(not doc.stack, 'unclosed elements', [s[0] for s in doc.stack])
    tags = [e for e in doc.events]
    got_text = [''.join(e[2]) for e in tags if e[0] == 'text']
    expect_eq(got_text, want_text, 'label text')
    got_hover = [''.join(e[2]) for e in tags if e[0] == 'title']
    expect_eq(got_hover, want_hover, 'hover text')
    allowed = {'style', 'svg', 'defs', 'marker', 'path', 'circle', 'g',
               'rect', 'text', 'title'}
    expect({e[0] for e in tags} <= allowed, 'unexpected element',
           {e[0] for e in tags})
    svg, = [e for e in tags if e[0] == 'svg']
    vb = [float(v) for v in svg[1]['viewbox'].split()]
    pad = case['pad']
    if xs:
      want = (min(x[0] for x in xs) - pad, min(x[1] for x in xs) - pad,
              max(x[2] for x in xs) + pad, max(x[3] for x in xs) + pad)
    else:
      want = (-pad, -pad, 10 + pad, 10 + pad)
    expect_eq((vb[0], vb[1], vb[0] + vb[2], vb[1] + vb[3]), want, 'viewBox')
    rects = [e for e in tags if e[0] == 'rect']
    wr = [b for k, b in elems if k == 'rect']
    expect_eq([[float(e[1][k]) for k in ('x', 'y', 'width', 'height')]
               for e in rects], [[float(v) for v in b] for b in wr], 'rects')
    paths = [e[1]['d'] for e in tags if e[0] == 'path' and 'class' in e[1]]
    expect_eq(paths, [b for k, b in elems if k == 'path'], 'lines')
    dots = [e[1] for e in tags if e[0] == 'circle' and 'class' in e[1]]
    expect_eq([(float(e['cx']), float(e['cy'])) for e in dots],
              [(float(p.x), float(p.y)) for k, p in elems if k == 'circle'],
              'dots')
    texts = [e for e in tags if e[0] == 'text']
    D = R.PointDirection
    for i, n, pt, ts, d in labels:
      ys = [float(e[1]['y']) for e in texts[i:i + n]]
      x = float(texts[i][1]['x'])
      expect(all(float(e[1]['x']) == x for e in texts[i:i + n]),
             'lines of a label are not aligned')
      style = texts[i][1].get('style', '')
      expect(all(abs(b - a - ts) < 1e-6 for a, b in zip(ys, ys[1:])),
             'line spacing', ys)
      if d == 'box':
        expect(abs(sum(ys) / n - pt.y) < 1e-6 and abs(x - pt.x) < 1e-6,
               'label not in the middle of its box', ys, pt)
        continue
      if d == D.AROUND:
        expect_eq(sum(y < pt.y for y in ys), (n + 1) // 2, 'lines above')
        expect_eq(sum(y > pt.y for y in ys), n // 2, 'lines below')
        expect(abs(min(abs(y - pt.y) for y in ys) - ts / 2) < 1e-6,
               'label is not around its point', ys)
      if d in (D.UP, D.UP_LEFT, D.UP_RIGHT):
        expect(max(ys) < pt.y, 'label asked above is not above', ys, pt)
      if d in (D.DOWN, D.DOWN_LEFT, D.DOWN_RIGHT):
        expect(min(ys) > pt.y, 'label asked below is not below', ys, pt)
      if d in (D.LEFT, D.RIGHT):
        expect(abs(sum(ys) / n - pt.y) < 1e-6, 'label not centred', ys, pt)
      if d in (D.LEFT, D.UP_LEFT, D.DOWN_LEFT):
        expect('text-anchor: end' in style and x < pt.x, 'left label', style)
      elif d in (D.RIGHT, D.UP_RIGHT, D.DOWN_RIGHT):
        expect('text-anchor: start' in style and x > pt.x, 'right label')
      else:
        expect('text-anchor: middle' in style and x == pt.x, 'centre label')


def runtime_contracts():
  return [Boxes(), Irr(), Svg()]
