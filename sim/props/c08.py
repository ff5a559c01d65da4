"""Looking at results changes nothing and shows the step asked for."""
import numpy as np

from sim import bench, seams, world
from sim.core import Failed
from sim.prop import Property, SutError, attempt, where

SMALL = 1e-8          # documented tolerance: shorter surfaces are points
NEAR = 5e-8           # lengths this close to the tolerance are left out
WATCH = ('direct', 'circumsolar', 'rho', 'inv_rho', 'qinc', 'q0', 'qabs',
         'isotropic', 'reflection', 'horizon', 'sky_term')


# (on the ground, shaded): which of the configured colours
COLOURS = {(True, True): 'ground_shaded', (True, False): 'ground_illum',
           (False, True): 'pvrow_shaded', (False, False): 'pvrow_illum'}


def scalar(v):
    return None if v is None else float(v)


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(a - b) <= tol * (1. + np.abs(b)))
                           | (a == b) | (np.isnan(a) & np.isnan(b))))


def step_value(v, i):
    """Value of a timeseries parameter at a step."""
    if v is None or np.isscalar(v) or isinstance(v, dict):
        return v
    return v[i]


def wrong_surface(surf, ts, i):
    """How a snapshot surface differs from its time series at step i."""
    want = np.array([[ts.b1.x[i], ts.b1.y[i]], [ts.b2.x[i], ts.b2.y[i]]])
    got = np.array(surf.coords)
    if not close(got, want):
        return 'coordinates %s, expected %s' % (got.tolist(), want.tolist())
    return wrong_values(surf, ts, i)


def wrong_values(surf, ts, i):
    if bool(surf.shaded) != bool(ts.shaded):
        return 'shaded %s, expected %s' % (surf.shaded, ts.shaded)
    if surf.index != ts.index:
        return 'index %s, expected %s' % (surf.index, ts.index)
    if ts.n_vector is not None and not close(surf.n_vector,
                                             ts.n_vector[:, i]):
        return 'normal vector %s' % (surf.n_vector,)
    if sorted(surf.params) != sorted(ts.params):
        return 'parameters %s' % sorted(surf.params)
    for k in ts.params:
        v = step_value(ts.params[k], i)
        if isinstance(v, dict):
            continue
        if not close(surf.get_param(k), v):
            return 'parameter %s is %r, expected %r' % (
                k, surf.get_param(k), v)
    return None


def match(surfaces, ts_list, i):
    """Snapshot surfaces must be the time series surfaces with an extent,
    in order."""
    sure = [t for t in ts_list if t.length[i] > NEAR]
    if any(SMALL / 5 < t.length[i] <= NEAR for t in ts_list):
        # around the tolerance either answer is right
        surfaces = [s for s in surfaces if s.length > NEAR]
    if len(surfaces) != len(sure):
        return '%d surfaces, expected %d' % (len(surfaces), len(sure))
    for s, t in zip(surfaces, sure):
        w = wrong_surface(s, t, i)
        if w:
            return 'surface %s: %s' % (t.index, w)
    return None


def state(arr):
    """Everything the array publishes."""
    d = {'rot': arr.rotation_vec, 'vf': arr.ts_vf_matrix,
         'vfa': arr.ts_vf_aoi_matrix}
    for i, s in enumerate(arr.all_ts_surfaces):
        d['c%d' % i] = s.coords.as_array
        d['p%d' % i] = s.params
        d['m%d' % i] = (s.index, s.shaded)
    for j, r in enumerate(arr.ts_pvrows):
        d['r%d' % j] = r.full_pvrow_coords.as_array
    d['g'] = [arr.ts_ground.illum_params, arr.ts_ground.shaded_params]
    for j, e in enumerate(arr.ts_ground.shadow_elements):
        d['s%d' % j] = e.coords.as_array
    return world.checksum(d)


class Looker(object):
    """All ways to look at an array; each returns plain values and checks
    them against the time series."""

    def __init__(self, prop, ctx, k, arr, what):
        self.prop, self.ctx, self.k, self.arr = prop, ctx, k, arr
        self.what = what

    def bad(self, kind, detail=''):
        self.ctx.violate(kind, 'operation %d: %s' % (self.k, detail))

    def look(self, q):
        fn = getattr(self, 'q_' + q['q'])
        n = self.arr.n_states
        i = q['at'] % n
        r = attempt(fn, q, i)
        if isinstance(r, SutError):
            self.bad('%s raised' % q['q'], '%s at %s (step %d of %d, %s)' % (
                r, where(r.exc), i, n, self.what))
        self.ctx.count('op:look %s' % q['q'])
        return r

    def flat(self, surfaces):
        return [(np.array(s.coords).tolist(), bool(s.shaded), s.index,
                 {p: scalar(v) for p, v in sorted(s.params.items())
                  if not isinstance(v, dict)})
                for s in surfaces]

    def row(self, q):
        return self.arr.ts_pvrows[q['row'] % len(self.arr.ts_pvrows)]

    def q_row(self, q, i):
        ts = self.row(q)
        g = ts.at(i)
        w = match(g.all_surfaces, ts.all_ts_surfaces, i) or match(
            ts.surfaces_at_idx(i), ts.all_ts_surfaces, i)
        if w:
            self.bad('row snapshot is not the step asked for',
                     'row %s step %d: %s' % (ts.index, i, w))
        fc = ts.full_pvrow_coords
        pts = sorted([(p.x, p.y) for p in g.boundary])
        want = sorted([(fc.b1.x[i], fc.b1.y[i]), (fc.b2.x[i], fc.b2.y[i])])
        if not close(pts, want) or g.index != ts.index:
            self.bad('row snapshot is not the step asked for',
                     'line %s, expected %s' % (pts, want))
        if not close(g.highest_point.y, ts.highest_point.y[i]):
            self.bad('row snapshot is not the step asked for',
                     'highest point')
        for name in ('front', 'back'):
            a, b = getattr(g, name), getattr(ts, name)
            if not close(a.length, b.length[i], 1e-6) \
                    or not close(a.shaded_length, b.shaded_length[i], 1e-6):
                self.bad('row snapshot is not the step asked for',
                         '%s lengths' % name)
            if len(a.list_segments) != len(b.list_segments):
                self.bad('row snapshot is not the step asked for',
                         'number of segments')
        return self.flat(g.all_surfaces)

    def q_side(self, q, i):
        ts = getattr(self.row(q), q['side'])
        g = ts.at(i)
        w = match(g.all_surfaces, ts.all_ts_surfaces, i) or match(
            ts.surfaces_at_idx(i), ts.all_ts_surfaces, i)
        if w:
            self.bad('side snapshot is not the step asked for', w)
        out = self.flat(g.all_surfaces)
        p = q['param']
        if all(t.params.get(p) is not None for t in ts.all_ts_surfaces) \
                and min(t.length[i] for t in ts.all_ts_surfaces) == 0.:
            # points may carry no number
            with np.errstate(all='ignore'):
                a = g.get_param_weighted(p)
            b = sum(t.length[i] * t.params[p][i] for t in ts.all_ts_surfaces
                    if t.length[i] > SMALL) / ts.length[i]
            if not close(a, b, 1e-6):
                self.bad('side average is not that of the step asked for',
                         '%s: %r, expected %r' % (p, a, b))
        return out

    def q_segment(self, q, i):
        segs = getattr(self.row(q), q['side']).list_segments
        ts = segs[q['seg'] % len(segs)]
        g = ts.at(i)
        w = match(g.all_surfaces, ts.all_ts_surfaces, i) or match(
            ts.surfaces_at_idx(i), ts.all_ts_surfaces, i)
        if w or g.index != ts.index:
            self.bad('segment snapshot is not the step asked for', w)
        ill = match(g.illum_collection.list_surfaces,
                    ts.illum.list_ts_surfaces, i)
        sh = match(g.shaded_collection.list_surfaces,
                   ts.shaded.list_ts_surfaces, i)
        if ill or sh:
            self.bad('segment snapshot is not the step asked for', ill or sh)
        return self.flat(g.all_surfaces)

    def q_surface(self, q, i):
        lst = self.arr.all_ts_surfaces
        ts = lst[q['surf'] % len(lst)]
        if ts.index != q['surf'] % len(lst):
            self.bad('surface index is not its position', '%s' % ts.index)
        g = ts.at(i)
        if ts.length[i] > NEAR:
            w = wrong_surface(g, ts, i)
            if w:
                self.bad('surface snapshot is not the step asked for', w)
            return self.flat([g])
        if ts.length[i] < SMALL / 5 and not g.is_empty:
            self.bad('surface snapshot is not the step asked for',
                     'a point has an extent')
        return []

    def q_ground(self, q, i):
        ts = self.arr.ts_ground
        g = ts.at(i, merge_if_flag_overlap=q['merge'],
                  with_cut_points=q['cut'], x_min_max=q['x'])
        surfs = g.all_surfaces
        name = 'ground snapshot is not the step asked for'
        for shaded, els in ((True, ts.shadow_elements),
                            (False, ts.illum_elements)):
            # same ground covered
            tot = sum(e.length[i] for e in els)
            got = sum(s.length for s in surfs if bool(s.shaded) == shaded)
            if not close(got, tot, 1e-6):
                self.bad(name, '%s length %r, expected %r (%s)' % (
                    'shaded' if shaded else 'illuminated', got, tot, q))
            mine = [s for s in surfs if bool(s.shaded) == shaded]
            tss = [t for e in els for t in e.all_ts_surfaces]
            if q['cut'] and not (q['merge'] and shaded):
                w = match(mine, tss, i)
                if w:
                    self.bad(name, '%s (%s)' % (w, q))
            elif q['cut']:
                by = {t.index: t for t in tss}
                for s in mine:
                    t = by.get(s.index)
                    if t is None:
                        self.bad(name, 'unknown index %s' % s.index)
                    w = wrong_values(s, t, i)
                    if w:
                        self.bad(name, 'surface %s: %s' % (s.index, w))
                    if t.length[i] > NEAR and not close(
                            s.coords[1], [t.b2.x[i], t.b2.y[i]]):
                        self.bad(name, 'surface %s ends at %s' % (
                            s.index, s.coords[1]))
            else:
                par = ts.shaded_params if shaded else ts.illum_params
                for s in mine:
                    for p in par:
                        if not close(s.get_param(p),
                                     step_value(par[p], i)):
                            self.bad(name, 'parameter %s' % p)
                if not (q['merge'] and shaded):
                    want = [e for e in els if e.length[i] > SMALL]
                    if len(want) != len(mine) or any(
                            not close(s.coords[j][0],
                                      (e.b1, e.b2)[j].x[i])
                            for s, e in zip(mine, want) for j in (0, 1)):
                        self.bad(name, 'elements differ')
        if q['x']:
            b = sorted(p.x for p in g.boundary)
            if not close(b, sorted(q['x'])):
                self.bad(name, 'extent %s, expected %s' % (b, q['x']))
        return self.flat(surfs)

    def q_points(self, q, i):
        """Ground surfaces that are not points at a step."""
        ts = self.arr.ts_ground
        shd = [t for e in ts.shadow_elements for t in e.all_ts_surfaces]
        ill = [t for e in ts.illum_elements for t in e.all_ts_surfaces]
        out = []
        for fn, lst in ((ts.non_point_shaded_surfaces_at, shd),
                        (ts.non_point_illum_surfaces_at, ill),
                        (ts.non_point_surfaces_at, ill + shd)):
            g = fn(i)
            w = match(g, lst, i)
            if w:
                self.bad('non-point ground surfaces are not those of the '
                         'step asked for', 'step %d: %s' % (i, w))
            out.append(self.flat(g))
        if ts.n_non_point_surfaces_at(i) != len(out[2]):
            self.bad('number of non-point surfaces')
        for e in ts.shadow_elements + ts.illum_elements:
            w = match(e.non_point_surfaces_at(i), e.all_ts_surfaces, i)
            if w:
                self.bad('element surfaces are not those of the step asked '
                         'for', w)
            if len(e.surfaces_at(i)) != len(e.all_ts_surfaces):
                self.bad('element surfaces are not those of the step asked '
                         'for', 'number')
        return out

    def q_cuts(self, q, i):
        """Sides of a cut point."""
        ts = self.arr.ts_ground
        c = q['row'] % len(ts.cut_point_coords)
        cx = np.array(ts.cut_point_coords[c].x)
        out = []
        left = ts.shadow_coords_left_of_cut_point(c)
        right = ts.shadow_coords_right_of_cut_point(c)
        for e, a, b in zip(ts.shadow_elements, left, right):
            if not close(a.length + b.length, e.length, 1e-6) \
                    and np.all(np.abs(cx) < 99.):
                self.bad('parts of a shadow do not add up', 'cut %d' % c)
            out += [a.as_array.tolist(), b.as_array.tolist()]
        for side in ('left', 'right'):
            for t in ts.ts_surfaces_side_of_cut_point(side, c):
                out.append(t.index)
        return out

    def q_values(self, q, i):
        """Weighted values, lengths, extreme points."""
        arr = self.arr
        p = q['param']
        out = []
        objs = [arr.ts_ground]
        for r in arr.ts_pvrows:
            for s in (r.front, r.back):
                objs.append(s)
                objs += s.list_segments
            objs.append(r.front.list_segments[0].illum)
        for o in objs:
            surfs = (o.all_ts_surfaces if hasattr(o, 'all_ts_surfaces')
                     else o.list_ts_surfaces)
            ln = np.asarray(o.length) * np.ones(arr.n_states)
            want = sum(s.length for s in surfs)
            if not close(ln, want, 1e-6):
                self.bad('length is not the sum of its surfaces', repr(o))
            out.append(ln.tolist())
            if hasattr(o, 'shaded_length'):
                sl = np.asarray(o.shaded_length) * np.ones(arr.n_states)
                if not close(sl, sum(s.length for s in surfs if s.shaded),
                             1e-6):
                    self.bad('shaded length is not that of its surfaces',
                             repr(o))
                out.append(sl.tolist())
            if all(s.params.get(p) is not None for s in surfs):
                with np.errstate(all='ignore'):
                    v = np.asarray(o.get_param_weighted(p)) * np.ones(
                        arr.n_states)
                    ww = np.asarray(o.get_param_ww(p)) * np.ones(
                        arr.n_states)
                    num = sum(s.length * s.params[p] for s in surfs)
                    ok = close(v, num / want, 1e-6) and close(ww, num, 1e-6)
                if not ok:
                    self.bad('weighted value is not that of its surfaces',
                             '%s of %r' % (p, o))
                out.append(v.tolist())
        for r in arr.ts_pvrows:
            out.append(r.highest_point.at(i).tolist())
            out.append(r.centroid.at(i).tolist())
            out.append(np.asarray(r.length).tolist())
            out.append(r.back.list_segments[0].lowest_point.at(i).tolist())
            sg = r.front.list_segments[-1]
            c = sg.coords
            for got, wx, wy in (
                    (sg.centroid, (c.b1.x + c.b2.x) / 2.,
                     (c.b1.y + c.b2.y) / 2.),
                    (sg.highest_point, None, np.maximum(c.b1.y, c.b2.y)),
                    (sg.lowest_point, None, np.minimum(c.b1.y, c.b2.y))):
                if not close(got.y, wy) \
                        or wx is not None and not close(got.x, wx):
                    self.bad('points of a segment', repr(sg))
        for e in arr.ts_ground.shadow_elements + arr.ts_ground.illum_elements:
            surfs = e.all_ts_surfaces
            if not close(e.centroid.x, (e.b1.x + e.b2.x) / 2.):
                self.bad('centre of a ground element')
            if all(s.params.get(p) is not None for s in surfs):
                with np.errstate(all='ignore'):
                    num = sum(s.length * s.params[p] for s in surfs)
                    if not close(e.get_param_ww(p), num, 1e-6) or not close(
                            e.get_param_weighted(p) * e.length, num, 1e-6) \
                            and np.all(e.length > NEAR):
                        self.bad('weighted value is not that of its '
                                 'surfaces', '%s of a ground element' % p)
        if list(arr.ts_surface_indices) != list(
                range(len(arr.all_ts_surfaces))):
            self.bad('indices of the surfaces')
        for s in arr.all_ts_surfaces[:4]:
            out.append(s.centroid.at(i).tolist())
            out.append(bool(s.is_empty))
            out.append(None if s.u_vector is None
                       else s.u_vector[:, i].tolist())
        return out

    def q_plot(self, q, i):
        """Plots, drawn on a real canvas."""
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        fig = Figure(figsize=(2, 2))
        FigureCanvasAgg(fig)
        ax = fig.add_subplot(111)
        arr = self.arr
        arr.plot_at_idx(i, ax, merge_if_flag_overlap=False,
                        with_surface_index=q['merge'])
        segs = []
        drawn = list(ax.lines)
        from pvfactors.config import COLOR_DIC as dic
        gnd = list(arr.ts_ground.all_ts_surfaces)
        for line in ax.lines:
            if line.get_linestyle() == 'None':
                continue
            segs.append([list(map(float, line.get_xdata())),
                         list(map(float, line.get_ydata()))])
        lst = arr.all_ts_surfaces
        if any(SMALL / 5 < t.length[i] <= NEAR for t in lst):
            return segs
        want = [[[t.b1.x[i], t.b2.x[i]], [t.b1.y[i], t.b2.y[i]]]
                for t in lst if t.length[i] > NEAR]
        a, b = sorted(segs), sorted(want)
        if len(a) != len(b):
            self.bad('plot is not the step asked for',
                     '%d lines, expected %d' % (len(a), len(b)))
        # rounding may change the sorted order: match greedily
        left = list(b)
        for s in a:
            for w in left:
                if close(s, w):
                    left.remove(w)
                    break
            else:
                self.bad('plot is not the step asked for',
                         'line %s at step %d' % (s, i))
        # labels name the surfaces drawn, where they have room
        shown = [t for t in lst if t.length[i] > NEAR]
        got = sorted(t.get_text() for t in ax.texts)
        inner = {str(t.index) for t in shown
                 if abs(t.b1.x[i] + t.b2.x[i]) / 2. < 48.}
        if len(set(got)) != len(got) or set(got) - {
                str(t.index) for t in shown} or (
                    q['merge'] and inner - set(got)):
            self.bad('labels of a plot are not those of the step asked for',
                     '%s, expected %s' % (got, sorted(inner)))
        if got and not q['merge']:
            self.bad('labels nobody asked for', '%s' % got)
        # shaded and illuminated parts each in the colour asked for
        r = self.row(q)
        seg = r.back.list_segments[q['seg'] % len(r.back.list_segments)]
        for ob, surfs, kw in (
                (r, r.all_ts_surfaces, {}),
                (r.front, r.front.all_ts_surfaces, {}),
                (seg, seg.all_ts_surfaces, {}),
                (arr.ts_ground, arr.ts_ground.all_ts_surfaces,
                 dict(with_cut_points=True, merge_if_flag_overlap=False))):
            old = len(ax.lines)
            ob.plot_at_idx(i, ax, color_shaded='#123456',
                           color_illum='#654321', **kw)
            self.colours(list(ax.lines)[old:], [
                (t, '#123456' if t.shaded else '#654321') for t in surfs], i)
        one = lst[q['surf'] % len(lst)]
        old = len(ax.lines)
        one.plot_at_idx(i, ax, 'red')
        self.colours(list(ax.lines)[old:], [(one, 'red')], i)
        if not self.same_colours(drawn, [
                (t, dic[COLOURS[any(t is g for g in gnd), bool(t.shaded)]])
                for t in lst], i):
            self.bad('colours of a plot are not those of the surfaces',
                     'step %d' % i)
        arr.ts_ground.plot_at_idx(i, ax, with_cut_points=q['cut'],
                                  merge_if_flag_overlap=q['merge'])
        return segs

    def colours(self, lines, want, i):
        if not self.same_colours(lines, want, i):
            self.bad('colours of a plot are not those asked for',
                     'step %d' % i)

    @staticmethod
    def same_colours(lines, want, i):
        """Whether the lines are the surfaces, each in its colour."""
        got = sorted((str(line.get_color()),
                      round(float(abs(np.hypot(*np.diff(
                          line.get_xydata(), axis=0)[0]))), 5))
                     for line in lines if line.get_linestyle() != 'None')
        ref = sorted((c, round(float(t.length[i]), 5)) for t, c in want
                     if t.length[i] > NEAR)
        return len(got) == len(ref) and all(
            a[0] == b[0] and abs(a[1] - b[1]) < 3e-5
            for a, b in zip(got, ref))

    def q_edit(self, q, i):
        """Editing a snapshot is nobody else's business."""
        g = self.row(q).at(i)
        gg = self.arr.ts_ground.at(i, with_cut_points=q['cut'],
                                   merge_if_flag_overlap=q['merge'])
        h = self.row(q).at(i)
        ref = repr(self.flat(h.all_surfaces))
        # values set on a part reach all its surfaces and no others
        side = getattr(g, q['side'])
        seg = side.list_segments[q['seg'] % len(side.list_segments)]
        col = (seg.illum_collection, seg.shaded_collection)[q['row'] % 2]
        for part in (col, seg, side, g, gg):
            mine = (list(part.list_surfaces) if part is col
                    else list(part.all_surfaces))
            rest = [s for s in g.all_surfaces + gg.all_surfaces
                    if not any(s is m for m in mine)]
            old = [dict(s.params) for s in rest]
            val = {'mine': 3. + i, 'qinc': -5.}
            part.update_params(val)
            if [dict(s.params) for s in rest] != old:
                self.bad('values set on a part reach other surfaces',
                         type(part).__name__)
            if not all(s.get_param('mine') == 3. + i
                       and s.get_param('qinc') == -5. for s in mine):
                self.bad('values set on a part do not reach its surfaces',
                         type(part).__name__)
            for j, s in enumerate(mine):
                s.update_params({'mine': 2. + j})
            ln = sum(s.length for s in mine)
            if part in (col, seg, side) and ln > NEAR:
                ww = sum(s.length * (2. + j) for j, s in enumerate(mine))
                if not close(part.get_param_ww('mine'), ww, 1e-6) \
                        or not close(part.get_param_weighted('mine'),
                                     ww / ln, 1e-6):
                    self.bad('weighted value is not that of its surfaces',
                             type(part).__name__)
            for s in rest:
                s.params.pop('mine', None)
        a, b = g.boundary
        if (g.lowest_point.y, g.highest_point.y) != (
                min(a.y, b.y), max(a.y, b.y)):
            self.bad('extreme points of a snapshot', '%r' % ([a.y, b.y],))
        for s in g.all_surfaces + gg.all_surfaces:
            s.update_params({'qinc': -77., 'mine': 1.})
        g.front.cast_shadow(g.original_linestring)
        if repr(self.flat(h.all_surfaces)) != ref:
            self.bad('editing a snapshot changed another one', '')
        return []


QUERIES = [('row', 3), ('side', 2), ('segment', 2), ('surface', 2),
           ('ground', 3), ('points', 2), ('cuts', 1), ('values', 3),
           ('plot', 0.7), ('edit', 1)]


def gen_query(rng):
    return {'q': rng.weighted(QUERIES), 'at': rng.randint(0, 999),
            'row': rng.randint(0, 9), 'seg': rng.randint(0, 9),
            'surf': rng.randint(0, 999),
            'side': rng.choice(['front', 'back']),
            'merge': rng.chance(0.5), 'cut': rng.chance(0.6),
            'x': rng.choice([None, None, [-20., 30.]]),
            'param': rng.choice(WATCH),
            'again': rng.chance(0.4),
            'break': round(rng.random(), 4) if rng.chance(0.1) else None}


LEVELS = [('surfaces', 2), ('surface', 1), ('part', 1), ('segment', 1),
          ('side', 1), ('row', 1.5), ('element', 0), ('ground', 1.5),
          ('illum', 1), ('shaded', 1), ('array', 1.5)]


def gen_note(rng):
    """The user keeps values of his own on a part of the array."""
    return {'level': rng.weighted(LEVELS), 'row': rng.randint(0, 9),
            'side': rng.choice(['front', 'back']),
            'seg': rng.randint(0, 9), 'surf': rng.randint(0, 999),
            'shaded': rng.chance(0.5),
            'name': rng.choice(['mine', 'mine', 'yours', 'soiling']),
            'flat': rng.chance(0.2)}


class C08(Property):
    ID = 'C08'
    TITLE = 'Looking at results changes nothing and shows the step asked for'
    RUNS = {'quick': 700, 'thorough': 12000}
    WALL = {'quick': 240., 'thorough': 3000.}
    RULE = 'One evaluation is one history of fits and runs on shared ' \
        'objects with looks of all kinds in between, inside report ' \
        'functions and cut short by failures; every look is compared with ' \
        'the time series, every run with one nobody looked at.'
    STUBS = ['injected exceptions (line trace hook)']
    REAL = ['all pvfactors modules', 'numpy', 'pandas', 'pvlib', 'shapely',
            'matplotlib (Agg canvas)']
    ASSUMPTIONS = ['surfaces within a factor of 5 of the 1e-8 m tolerance '
                   'may be shown or not',
                   'parameters that are dictionaries are shown whole, as '
                   'documented']

    def setup(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.figure  # noqa
        import matplotlib.backends.backend_agg  # noqa

    def generate(self, rng, i, tier):
        st = bench.gen_stage(rng)
        ops = []
        for _ in range(rng.randint(1, 4)):
            e = rng.randrange(len(st['engines']))
            cfg = bench.stage_cfg(st, e)
            ops.append({
                'op': rng.weighted([('use', 5), ('fit', 1)]), 'eng': e,
                'data': bench.gen_data(
                    rng, 7, prev=[o['data'] for o in ops]),
                'modes': [bench.gen_mode(rng, cfg, 0.65)
                          for _ in range(rng.weighted(
                              [(1, 5), (2, 2), (3, 1)]))],
                'notes': [gen_note(rng) for _ in range(rng.weighted(
                    [(0, 3), (1, 1), (2, 1)]))],
                'fitted': [gen_query(rng) for _ in range(rng.weighted(
                    [(0, 2), (1, 2), (3, 1)]))],
                'report': [gen_query(rng) for _ in range(rng.weighted(
                    [(0, 3), (1, 1), (3, 1)]))],
                'after': [gen_query(rng)
                          for _ in range(rng.randint(1, 6))]})
        return {'stage': st, 'ops': ops}

    def execute(self, sc, ctx):
        st = sc['stage']
        refs = bench.References(ctx)
        for op in sc['ops']:
            if op['op'] == 'use':
                for m in op['modes']:
                    refs.get(bench.stage_cfg(st, op['eng']), op['data'], m)
        stage = bench.Stage(st)
        held = {}
        for k, op in enumerate(sc['ops']):
            cfg = stage.cfg(op['eng'])
            eng = stage.engines[op['eng']]
            args, kw, t = bench.fit_args(cfg, op['data'], held)
            ctx.sim_time += world.span_seconds(t)
            ctx.log(op['op'], k, len(op['data']['rows']))
            r = attempt(eng.fit, *args, **kw)
            if isinstance(r, SutError):
                ctx.violate('fit raised', '%s at %s' % (r, where(r.exc)))
            self.observe(ctx, k, eng.pvarray, op['fitted'], 'after the fit')
            if op['op'] == 'fit':
                continue
            for j, mode in enumerate(op['modes']):
                ref = refs.get(cfg, op['data'], mode)
                if isinstance(ref, Failed):
                    ctx.violate('fresh objects raised', '%s\n%s' % (
                        ref, ref.tb))
                qs = op['report']
                box = []

                def fn(pvarray):
                    self.observe(ctx, k, pvarray, qs, 'in the report')
                    from sim import users
                    box.append(users.extract(
                        pvarray, None if mode is None else tuple(mode)))
                r = attempt(bench.run_mode, eng, mode, fn)
                if isinstance(r, SutError):
                    ctx.violate('run raised', 'operation %d: %s at %s' % (
                        k, r, where(r.exc)))
                ctx.log('run', k, j, 'full' if mode is None else 'fast')
                self.observe(ctx, k, eng.pvarray, op['after'],
                             'after a run')
                pub = bench.published(eng.pvarray, mode)
                pub.update({'report ' + a: b for a, b in box[0].items()})
                d = world.difference(pub, ref)
                ctx.check(d is None, 'differs from a run nobody looked at',
                          'operation %d run %d: %s' % (k, j, d))
                for n, note in enumerate(op['notes']):
                    self.note(ctx, k, eng.pvarray, note,
                              100. * k + 10. * j + n)
                    self.observe(ctx, k, eng.pvarray, op['after'],
                                 'with values of the user')

    def note(self, ctx, k, arr, note, value):
        """Values the user sets on a part reach all its surfaces, at every
        step, and nothing else."""
        level = note['level']
        val = value if note['flat'] else value + np.arange(
            float(arr.n_states))
        name = note['name']
        row = arr.ts_pvrows[note['row'] % len(arr.ts_pvrows)]
        side = getattr(row, note['side'])
        seg = side.list_segments[note['seg'] % len(side.list_segments)]
        part = seg.shaded if note['shaded'] else seg.illum
        gnd = arr.ts_ground
        shd = [t for e in gnd.shadow_elements for t in e.all_ts_surfaces]
        ill = [t for e in gnd.illum_elements for t in e.all_ts_surfaces]
        every = arr.all_ts_surfaces
        one = every[note['surf'] % len(every)]
        set_on, mine = {
            'surface': (one.update_params, [one]),
            'part': (part.update_params, part.list_ts_surfaces),
            'segment': (seg.update_params, seg.all_ts_surfaces),
            'side': (side.update_params, side.all_ts_surfaces),
            'row': (row.update_params, row.all_ts_surfaces),
            'ground': (gnd.update_params, shd + ill),
            'illum': (gnd.update_illum_params, ill),
            'shaded': (gnd.update_shaded_params, shd),
            'array': (arr.update_params, every),
            'surfaces': (None, every)}[level]
        ids = {id(t) for t in mine}
        others = {t.index: dict(t.params) for t in every
                  if id(t) not in ids}
        kept = {t.index: {p: v for p, v in t.params.items() if p != name}
                for t in mine}
        if set_on is None:
            for t in every:
                t.update_params({name: val + 0.25 * t.index})
        else:
            r = attempt(set_on, {name: val})
            if isinstance(r, SutError):
                ctx.violate('setting values raised', '%s: %s at %s' % (
                    level, r, where(r.exc)))
        ctx.count('op:values set on %s' % level)
        ctx.log('note', k, level, name)
        for t in every:
            if id(t) in ids:
                want = val + (0.25 * t.index if set_on is None else 0.)
                if not close(np.zeros(arr.n_states) + t.params.get(
                        name, np.nan), np.zeros(arr.n_states) + want):
                    ctx.violate('values set on a part do not reach its '
                                'surfaces', 'operation %d, %s: surface %d '
                                'has %r' % (k, level, t.index,
                                            t.params.get(name)))
                now = {p: v for p, v in t.params.items() if p != name}
                was = kept[t.index]
            else:
                now, was = t.params, others[t.index]
            if sorted(now) != sorted(was) or any(
                    now[p] is not was[p] for p in now):
                ctx.violate('setting values on a part changes others',
                            'operation %d, %s: surface %d' % (
                                k, level, t.index))
        for shaded, par, els in (
                (True, gnd.shaded_params, gnd.shadow_elements),
                (False, gnd.illum_params, gnd.illum_elements)):
            if level in ('ground', 'array', 'shaded' if shaded else 'illum'):
                for d in [par] + [e.params for e in els]:
                    if not close(np.zeros(arr.n_states) + d.get(
                            name, np.nan), np.zeros(arr.n_states) + val):
                        ctx.violate('values set on the ground are not in '
                                    'its summary', 'operation %d' % k)

    def observe(self, ctx, k, arr, queries, when):
        if not queries:
            return
        before = state(arr)
        seen = []
        look = Looker(self, ctx, k, arr, when)
        for q in queries:
            ctx.log('look', k, q['q'], q['at'] % arr.n_states)
            if q['break'] is not None:
                self.broken(ctx, look, q)
            else:
                a = look.look(q)
                if q['again']:
                    seen.append((q, repr(a)))
            if state(arr) != before:
                ctx.violate('looking changed the array',
                            'operation %d %s: %s changed published values'
                            % (k, when, q['q']))
        for q, a in seen:
            if repr(look.look(q)) != a:
                ctx.violate('equal queries give different answers',
                            'operation %d %s: %s' % (k, when, q['q']))

    def broken(self, ctx, look, q):
        """A look that fails midway."""
        def boom():
            raise MemoryError('injected')
        trap = seams.LineTrap(1 + int(q['break'] * 60), boom)
        with trap:
            r = attempt(getattr(look, 'q_' + q['q']), q,
                        q['at'] % look.arr.n_states)
        if trap.fired:
            ctx.count('fault:MemoryError in a look')
        elif isinstance(r, SutError):
            ctx.violate('%s raised' % q['q'], str(r))

    def shrinks(self, sc):
        for c in bench.shrinks(sc):
            yield c
        from sim.core import list_shrinks
        for i, op in enumerate(sc['ops']):
            if op['notes']:
                for small in list_shrinks(op['notes']):
                    yield dict(sc, ops=sc['ops'][:i] + [
                        dict(op, notes=small)] + sc['ops'][i + 1:])
            for key in ('fitted', 'report', 'after'):
                for small in list_shrinks(op[key]):
                    yield dict(sc, ops=sc['ops'][:i] + [
                        dict(op, **{key: small})] + sc['ops'][i + 1:])
                for j, q in enumerate(op[key]):
                    for simple in (dict(q, **{'break': None}),
                                   dict(q, again=False)):
                        if simple != q:
                            yield dict(sc, ops=sc['ops'][:i] + [
                                dict(op, **{key: op[key][:j] + [simple]
                                            + op[key][j + 1:]})]
                                + sc['ops'][i + 1:])


PROPERTY = C08()
