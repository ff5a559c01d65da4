"""Editing 2D geometries conserves length and touches only that object."""
import numpy as np

from sim import bench, seams, world
from sim.core import list_shrinks
from sim.prop import Property, SutError, attempt, where

TOL = 1e-6     # metres; the code works with 1e-8
KINDS = [('row', 4), ('tilted', 2), ('side', 3), ('segment', 3),
         ('half', 2), ('ground', 2), ('snapshot', 2), ('collection', 2),
         ('flatground', 1)]


# ------------------------------------------------------- interval reference

def union(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1e-9:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


def cut_out(iv, a, b):
    out = []
    for x, y in iv:
        if b <= x or a >= y:
            out.append((x, y))
            continue
        if a - x > 1e-7:
            out.append((x, a))
        if y - b > 1e-7:
            out.append((b, y))
    return out


def common(iv, a, b):
    return [(max(x, a), min(y, b)) for x, y in iv
            if min(y, b) - max(x, a) > 1e-9]


def same(u, v, tol=10 * TOL):
    u = [x for x in union(u) if x[1] - x[0] > tol]
    v = [x for x in union(v) if x[1] - x[0] > tol]
    # glue pieces closer than the tolerance
    def glue(w):
        out = []
        for a, b in w:
            if out and a - out[-1][1] <= tol:
                out[-1][1] = b
            else:
                out.append([a, b])
        return out
    u, v = glue(u), glue(v)
    return len(u) == len(v) and all(
        abs(p - q) <= tol for x, y in zip(u, v) for p, q in zip(x, y))


class Part(object):
    """Model of one segment (or collection): intervals along the line."""

    def __init__(self, lo, hi, illum, shaded):
        self.lo, self.hi = lo, hi
        self.illum = list(illum)
        self.shaded = list(shaded)
        self.cuts = {}

    def cast(self, a, b):
        new = common(self.illum, a, b)
        self.illum = cut_out(self.illum, a, b)
        self.shaded = union(self.shaded) + new
        self.cuts = {c: k for c, k in self.cuts.items()
                     if k == 'shaded' or not a - TOL < c < b + TOL}
        return new

    def merge(self):
        """True if the shaded parts were contiguous."""
        u = union(self.shaded)
        if not u:
            return True
        gaps = [g for x, y in zip(u, u[1:]) for g in [(x[1], y[0])]]
        ok = all(g[1] - g[0] < 1e-7 for g in gaps)
        self.shaded = [(u[0][0], u[-1][1])]
        self.cuts = {c: k for c, k in self.cuts.items() if k != 'shaded'}
        return ok

    def cut(self, s):
        for kind in ('illum', 'shaded'):
            for a, b in union(getattr(self, kind)):
                if a + TOL < s < b - TOL:
                    self.cuts[s] = kind
                    return


class Target(object):
    """A thing that can be edited, and its model."""

    def __init__(self, what, obj, p0, p1, parts, mode):
        self.what = what
        self.obj = obj
        self.p0 = np.array(p0, dtype=float)
        self.p1 = np.array(p1, dtype=float)
        self.size = float(np.hypot(*(self.p1 - self.p0)))
        self.u = (self.p1 - self.p0) / self.size
        self.parts = parts
        self.mode = mode           # side, segment, collection
        self.retired = False
        self.normals = None

    def point(self, s):
        return tuple(self.p0 + self.u * s)

    def along(self, xy):
        d = np.array(xy, dtype=float) - self.p0
        s = float(d.dot(self.u))
        off = float(abs(d[0] * self.u[1] - d[1] * self.u[0]))
        return s, off

    def segments(self):
        if self.mode == 'side':
            return list(self.obj.list_segments)
        if self.mode == 'segment':
            return [self.obj]
        return []

    def special(self):
        """Interesting positions."""
        out = []
        for p in self.parts:
            out += [p.lo, p.hi] + list(p.cuts)
            for iv in (p.illum, p.shaded):
                for a, b in iv:
                    out += [a, b]
        return sorted(set(round(x, 9) for x in out))


def surfaces_of(obj):
    if hasattr(obj, 'list_surfaces'):
        return list(obj.list_surfaces)
    return list(obj.all_surfaces)


def print_of(obj):
    """Fingerprint of an object nobody should have touched."""
    out = []
    for s in surfaces_of(obj):
        out.append((s.wkb_hex, bool(s.shaded), s.index,
                    repr(sorted(s.params.items()))))
    out.append(obj.wkb_hex if not obj.is_empty else '')
    if hasattr(obj, 'shaded_length'):
        out.append(float(obj.shaded_length))
    return out


class C09(Property):
    ID = 'C09'
    TITLE = 'Editing 2D geometries conserves length and touches only that ' \
        'object'
    RUNS = {'quick': 6000, 'thorough': 200000}
    WALL = {'quick': 200., 'thorough': 3000.}
    RULE = 'One evaluation is one history of casts, cuts, merges, queries, ' \
        'failed edits and new objects over several rows, sides, segments, ' \
        'grounds and collections; after each operation the edited object ' \
        'is compared with an interval model and all others with their ' \
        'state before.'
    STUBS = ['injected exceptions (line trace hook)']
    REAL = ['pvfactors.geometry', 'shapely', 'numpy']
    TIME_NOTE = 'no time in these operations'
    ASSUMPTIONS = ['shadows run along the line they fall on',
                   'positions are at least 1e-4 of the line apart or equal',
                   'lengths are compared within 1e-5 m (the code works '
                   'with 1e-8 m)',
                   'merging shaded parts with light between them is only '
                   'checked to give one stretch']

    # ------------------------------------------------------------ scenario

    def generate(self, rng, i, tier):
        objs = [self.gen_object(rng) for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(3, 14)):
            op = {'op': rng.weighted([
                ('cast', 6), ('cut', 3), ('merge', 2), ('query', 3),
                ('new', 0.7), ('break', 0.5), ('params', 0.7),
                ('one', 0.7)]),
                'obj': rng.randint(0, 9), 'side': rng.randint(0, 3),
                'via': rng.weighted([('side', 3), ('segment', 1)]),
                'seg': rng.randint(0, 3),
                'a': self.gen_pos(rng), 'b': self.gen_pos(rng),
                'flip': rng.chance(0.5), 'surface': rng.chance(0.2),
                'at': round(rng.random(), 4),
                'inner': rng.choice(['cast', 'cut', 'merge'])}
            if op['op'] == 'new':
                op['new'] = self.gen_object(rng)
            ops.append(op)
        return {'objs': objs, 'ops': ops}

    def gen_pos(self, rng):
        """Position: fraction of the line, or one of the special ones."""
        if rng.chance(0.3):
            return ['special', rng.randint(0, 99)]
        return ['at', rng.weighted([
            (round(rng.uniform(0.02, 0.98), 3), 6),
            (round(rng.uniform(-0.3, -0.01), 3), 1),
            (round(rng.uniform(1.01, 1.3), 3), 1)])]

    def gen_object(self, rng):
        ang = rng.choice([0., 0., 20., -20., 35., -60., 120., 160., 90.,
                          round(rng.uniform(-180, 180), 1)])
        return {'kind': rng.weighted(KINDS),
                'x': round(rng.uniform(-5, 5), 3),
                'y': round(rng.uniform(0.5, 5), 3),
                'length': round(rng.uniform(0.8, 6.), 2), 'angle': ang,
                'n': rng.weighted([(1, 4), (2, 2), (3, 2), (4, 1)]),
                'm': rng.weighted([(1, 4), (2, 2), (3, 1)]),
                'shaded': rng.chance(0.25),
                'params': rng.chance(0.3),
                'row': rng.randint(0, 10**6)}

    # ------------------------------------------------------------- objects

    def build(self, o):
        """Objects and their models."""
        from pvfactors.geometry.base import (
            BaseSide, PVSegment, PVSurface, ShadeCollection)
        from pvfactors.geometry.pvrow import PVRow, PVRowSide
        from pvfactors.geometry.pvground import PVGround
        ang = np.deg2rad(o['angle'])
        d = np.array([np.cos(ang), np.sin(ang)]) * o['length']
        p0 = np.array([o['x'], o['y']])
        p1 = p0 + d
        coords = [tuple(p0), tuple(p1)]
        names = ['qinc'] if o['params'] else None
        sh = o['shaded']

        def parts(n, size, shaded=sh):
            out = []
            for k in range(n):
                a, b = size * k / n, size * (k + 1) / n
                out.append(Part(a, b, [] if shaded else [(a, b)],
                                [(a, b)] if shaded else []))
            return out
        k = o['kind']
        L = o['length']
        keep = []
        if k == 'row':
            row = PVRow.from_linestring_coords(
                coords, shaded=sh, cut={'front': o['n'], 'back': o['m']},
                **({'param_names': names} if names else {}))
            keep = [row]
            ts = [Target('front', row.front, p0, p1, parts(o['n'], L),
                         'side'),
                  Target('back', row.back, p0, p1, parts(o['m'], L),
                         'side')]
        elif k == 'tilted':
            tilt = abs(o['angle']) % 80.
            row = PVRow.from_center_tilt_width(
                (o['x'], o['y']), tilt, L, 90. if o['angle'] > 0 else 270.,
                0., shaded=sh, cut={'front': o['n'], 'back': o['m']})
            c = np.array(row.original_linestring.coords)
            keep = [row]
            ts = [Target('front', row.front, c[0], c[1], parts(o['n'], L),
                         'side'),
                  Target('back', row.back, c[0], c[1], parts(o['m'], L),
                         'side')]
        elif k == 'side':
            cls = PVRowSide if o['row'] % 2 else BaseSide
            side = cls.from_linestring_coords(coords, shaded=sh,
                                              n_segments=o['n'],
                                              param_names=names)
            ts = [Target('side', side, p0, p1, parts(o['n'], L), 'side')]
        elif k == 'segment':
            seg = PVSegment.from_linestring_coords(
                coords, shaded=sh, param_names=names, index=3)
            ts = [Target('segment', seg, p0, p1, parts(1, L), 'segment')]
        elif k == 'half':
            # one collection given, the other by default
            col = ShadeCollection.from_linestring_coords(coords, shaded=sh)
            seg = PVSegment(shaded_collection=col) if sh \
                else PVSegment(illum_collection=col)
            ts = [Target('segment', seg, p0, p1, parts(1, L), 'segment')]
        elif k == 'ground':
            g = PVGround.as_flat(x_min_max=(o['x'], o['x'] + L), shaded=sh,
                                 param_names=names)
            ts = [Target('ground', g, (o['x'], 0.), (o['x'] + L, 0.),
                         parts(1, L), 'side')]
        elif k == 'flatground':
            # a ground of alternating surfaces
            q = [tuple(p0 + d * f) for f in (0., 0.25, 0.5, 0.8, 1.)]
            q = [(x, 0.) for x in np.linspace(o['x'], o['x'] + L, 5)]
            sa = [PVSurface([q[0], q[1]], shaded=True),
                  PVSurface([q[2], q[3]], shaded=True)]
            ia = [PVSurface([q[1], q[2]]), PVSurface([q[3], q[4]])]
            g = PVGround.from_lists_surfaces(sa, ia)
            keep = [(sa, list(sa)), (ia, list(ia))]
            pt = Part(0., L, [(L / 4, L / 2), (3 * L / 4, L)],
                      [(0., L / 4), (L / 2, 3 * L / 4)])
            ts = [Target('ground', g, q[0], q[4], [pt], 'side')]
        elif k == 'snapshot':
            cfg = {'n_pvrows': 3, 'pvrow_height': 2., 'pvrow_width': 2.,
                   'axis_azimuth': 0., 'gcr': 0.6,
                   'cut': {'1': {'front': o['n'], 'back': o['m']}}}
            arr = world.make_array(cfg)
            t = world.table([o['row'], o['row'] + 1], cfg)
            arr.fit(t['solar_zenith'], t['solar_azimuth'],
                    t['surface_tilt'], t['surface_azimuth'])
            row = arr.ts_pvrows[1].at(o['row'] % 2)
            ts = []
            for name in ('front', 'back'):
                side = getattr(row, name)
                line = arr.ts_pvrows[1].full_pvrow_coords.at(o['row'] % 2)
                n = o['n'] if name == 'front' else o['m']
                tg = Target('snapshot ' + name, side, line[0], line[1],
                            [], 'side')
                for j, seg in enumerate(side.list_segments):
                    a, b = tg.size * j / n, tg.size * (j + 1) / n
                    iv = []
                    for col in (seg.illum_collection,
                                seg.shaded_collection):
                        iv.append([tuple(sorted(
                            tg.along(c)[0] for c in s.coords))
                            for s in col.list_surfaces])
                    tg.parts.append(Part(a, b, iv[0], iv[1]))
                ts.append(tg)
            keep = [row, ('array', arr)]
        elif k == 'collection':
            mid = tuple(p0 + d * 0.5)
            lst = [PVSurface([coords[0], mid], shaded=sh),
                   PVSurface([mid, coords[1]], shaded=sh)]
            col = ShadeCollection(lst, shaded=sh)
            other = ShadeCollection(lst, shaded=sh)
            keep = [other, (lst, list(lst))]
            pt = parts(1, L)[0]
            pt.cuts[L / 2] = 'shaded' if sh else 'illum'
            ts = [Target('collection', col, p0, p1, [pt], 'collection')]
        for t in ts:
            t.family = id(keep[0]) if keep else id(t)
            t.kind = k
            t.normals = [np.array(s.n_vector) / np.linalg.norm(s.n_vector)
                         for s in surfaces_of(t.obj)[:1]]
        return ts, keep

    # ------------------------------------------------------------- running

    def execute(self, sc, ctx):
        self.targets, self.keeps = [], []
        for o in sc['objs']:
            self.add(ctx, o)
        for k, op in enumerate(sc['ops']):
            if op['op'] == 'new':
                self.add(ctx, op['new'])
                ctx.log('new', k, op['new']['kind'])
                continue
            live = [t for t in self.targets if not t.retired]
            if not live:
                break
            t = live[op['obj'] % len(live)]
            others = [(x, print_of(x.obj)) for x in self.targets
                      if x is not t]
            kept = [(x, self.keep_print(x)) for x in self.keeps
                    if not self.owns(x, t)]
            ctx.count('op:%s' % op['op'])
            getattr(self, 'do_' + op['op'])(ctx, k, op, t)
            for x, old in others:
                if print_of(x.obj) != old:
                    ctx.violate('another object changed',
                                'operation %d (%s) on a %s changed a %s' % (
                                    k, op['op'], t.kind, x.kind))
            for x, old in kept:
                if self.keep_print(x) != old:
                    ctx.violate('another object changed',
                                'operation %d (%s) on a %s changed %s' % (
                                    k, op['op'], t.kind, type(x).__name__))
            self.defaults(ctx, k)
            if op['op'] != 'break' and not t.retired:
                self.verify(ctx, k, op['op'], t)

    @staticmethod
    def owns(x, t):
        return any(getattr(x, n, None) is t.obj for n in ('front', 'back'))

    @staticmethod
    def keep_print(x):
        if isinstance(x, tuple) and x[0] == 'array':
            arr = x[1]
            return world.checksum([
                [s.coords.as_array, s.params, s.index]
                for s in arr.all_ts_surfaces])
        if isinstance(x, tuple):
            return [id(s) for s in x[0]] == [id(s) for s in x[1]]
        return print_of(x)

    def add(self, ctx, o):
        r = attempt(self.build, o)
        if isinstance(r, SutError):
            ctx.violate('building raised', '%s: %s at %s' % (
                o['kind'], r, where(r.exc)))
        ts, keep = r
        for x in keep:
            if isinstance(x, tuple) and isinstance(x[0], list):
                if not self.keep_print(x):
                    ctx.violate('caller list changed', o['kind'])
        self.targets += ts
        self.keeps += keep
        ctx.count('probe:object %s' % o['kind'])
        for t in ts:
            self.verify(ctx, -1, 'new', t)

    def defaults(self, ctx, k):
        """Objects created now with default arguments are empty."""
        from pvfactors.geometry.base import PVSegment, ShadeCollection
        from pvfactors.geometry.pvrow import PVRow, PVRowSide
        from pvfactors.geometry.pvground import PVGround
        for cls in (PVSegment, ShadeCollection, PVRowSide, PVGround, PVRow):
            g = cls()
            n = len(surfaces_of(g))
            if n or g.length > 0.:
                ctx.violate('a new %s is not empty' % cls.__name__,
                            'after operation %d: %d surfaces' % (k, n))

    def position(self, p, t):
        if p[0] == 'at':
            return p[1] * t.size
        sp = t.special()
        return sp[p[1] % len(sp)]

    def do_cast(self, ctx, k, op, t):
        from shapely.geometry import LineString
        a, b = sorted([self.position(op['a'], t), self.position(op['b'], t)])
        if b - a < 1e-4 * t.size:
            return
        pts = [t.point(a), t.point(b)]
        if op['flip']:
            pts.reverse()
        line = LineString(pts)
        if op['surface']:
            from pvfactors.geometry.base import PVSurface
            line = PVSurface(pts, shaded=True)
        if t.mode == 'collection':
            ctx.log('remove', k, t.kind)
            self.sut(ctx, k, t, 'remove_linestring',
                     t.obj.remove_linestring, line)
            p = t.parts[0]
            for kind in ('illum', 'shaded'):
                setattr(p, kind, cut_out(getattr(p, kind), a, b))
            p.cuts = {c: x for c, x in p.cuts.items()
                      if not a - TOL < c < b + TOL}
            return
        whole = t.mode == 'segment' or op['via'] == 'side'
        j = op['seg'] % len(t.parts)
        ctx.log('cast', k, t.kind, whole)
        fn = t.obj.cast_shadow if whole else \
            t.segments()[j].cast_shadow
        self.sut(ctx, k, t, 'cast_shadow', fn, line)
        for p in (t.parts if whole else [t.parts[j]]):
            new = p.cast(a, b)
            if len(new) > 1:
                ctx.count('probe:shadow over several lit parts')
            if len(union(p.shaded)) > 1:
                ctx.count('probe:separate shadows on a segment')

    def do_cut(self, ctx, k, op, t):
        from shapely.geometry import Point
        s = self.position(op['a'], t)
        whole = t.mode != 'side' or op['via'] == 'side'
        j = op['seg'] % len(t.parts)
        ctx.log('cut', k, t.kind, whole)
        fn = t.obj.cut_at_point if whole else t.segments()[j].cut_at_point
        self.sut(ctx, k, t, 'cut_at_point', fn, Point(*t.point(s)))
        for p in (t.parts if whole else [t.parts[j]]):
            p.cut(s)

    def do_merge(self, ctx, k, op, t):
        ctx.log('merge', k, t.kind)
        if t.mode == 'side':
            self.sut(ctx, k, t, 'merge_shaded_areas',
                     t.obj.merge_shaded_areas)
        elif t.mode == 'segment':
            self.sut(ctx, k, t, 'merge_surfaces',
                     t.obj.shaded_collection.merge_surfaces)
        else:
            p = t.parts[0]
            if p.illum:
                p.shaded, p.illum = p.illum, []
            self.sut(ctx, k, t, 'merge_surfaces', t.obj.merge_surfaces)
            if not p.merge():
                ctx.count('probe:merge over a gap')
            if not t.obj.shaded:
                p.shaded, p.illum = [], p.shaded
                p.cuts = {}
            return
        ok = [p.merge() for p in t.parts]
        if not all(ok):
            # light between the merged shadows: the object is not
            # followed any further
            ctx.count('probe:merge over a gap')
            self.verify(ctx, k, 'merge', t, gap=True)
            t.retired = True

    def do_query(self, ctx, k, op, t):
        ctx.log('query', k, t.kind)
        g = t.obj
        for seg in t.segments():
            seg.all_surfaces, seg.surface_indices, seg.n_surfaces
        if t.mode != 'collection':
            g.all_surfaces
            g.shaded_length
        g.n_surfaces
        g.surface_indices
        g.n_vector
        for x in self.keeps:
            if not isinstance(x, tuple):
                surfaces_of(x)

    def do_params(self, ctx, k, op, t):
        """Set a value on all surfaces of the object and read it back."""
        if t.kind == 'collection':
            return       # its surfaces are also in another collection
        ctx.log('params', k, t.kind)
        v = float(k + 1) + op['at']
        self.sut(ctx, k, t, 'update_params', t.obj.update_params,
                 {'seen': v})
        got = [s.params.get('seen') for s in surfaces_of(t.obj)]
        if any(x != v for x in got):
            ctx.violate('parameter not updated', 'operation %d on a %s: %s, '
                        'expected %r' % (k, t.kind, got, v))
        total = sum(s.length for s in surfaces_of(t.obj))
        if total > 1e-3:
            w = attempt(t.obj.get_param_ww, 'seen')
            if isinstance(w, SutError) or abs(w - v * total) > 1e-5 * (
                    1. + abs(v * total)):
                ctx.violate('weighted parameter is wrong', 'operation %d on '
                            'a %s: %s, expected %r' % (k, t.kind, w,
                                                       v * total))

    def do_one(self, ctx, k, op, t):
        """Set a value on one surface, or one segment, of the object."""
        if t.kind == 'collection':
            return
        ctx.log('one', k, t.kind)
        every = surfaces_of(t.obj)
        if not every:
            return
        if op['via'] == 'segment' and t.mode == 'side':
            g = t.segments()[op['seg'] % len(t.parts)]
            mine = surfaces_of(g)
        else:
            g = every[int(op['at'] * len(every)) % len(every)]
            mine = [g]
        v = 1000. + k + op['at']
        before = [dict(s.params) for s in every]
        self.sut(ctx, k, t, 'update_params', g.update_params, {'seen': v})
        for s, old in zip(every, before):
            if any(s is m for m in mine):
                old['seen'] = v
            if s.params != old:
                ctx.violate('parameter of another surface changed',
                            'operation %d on a %s: %s, expected %s' % (
                                k, t.kind, s.params, old))

    def do_break(self, ctx, k, op, t):
        """An edit that fails midway: the object is lost, not others."""
        def boom():
            raise MemoryError('injected')
        trap = seams.LineTrap(1 + int(op['at'] * 60), boom)
        from shapely.geometry import LineString, Point
        a, b = sorted([self.position(op['a'], t), self.position(op['b'], t)])
        if b - a < 1e-4 * t.size:
            return
        line = LineString([t.point(a), t.point(b)])
        ctx.log('break', k, t.kind, op['inner'])
        with trap:
            if op['inner'] == 'cut':
                attempt(t.obj.cut_at_point, Point(*t.point(a)))
            elif op['inner'] == 'cast' and t.mode != 'collection':
                attempt(t.obj.cast_shadow, line)
            elif op['inner'] == 'merge' and t.mode == 'side':
                attempt(t.obj.merge_shaded_areas)
        if trap.fired:
            ctx.count('fault:MemoryError in an edit')
        t.retired = True

    def sut(self, ctx, k, t, what, fn, *a):
        r = attempt(fn, *a)
        if isinstance(r, SutError):
            ctx.violate('%s raised' % what, 'operation %d on a %s: %s at %s'
                        % (k, t.kind, r, where(r.exc)))

    # ------------------------------------------------------------ checking

    def verify(self, ctx, k, what, t, gap=False):
        def bad(kind, detail):
            ctx.violate(kind, 'after operation %d (%s) on a %s (%s): %s' % (
                k, what, t.kind, t.what, detail))
        ctx.count('op:check')
        if t.mode == 'collection':
            p = t.parts[0]
            self.check_part(bad, t, p.illum if not t.obj.shaded
                            else p.shaded, t.obj, t.obj.list_surfaces,
                            bool(t.obj.shaded))
            self.check_cuts(bad, t, p, t.obj.list_surfaces)
            return
        all_ = []
        total = 0.
        n = 0
        for seg, p in zip(t.segments(), t.parts):
            ill, sh = seg.illum_collection, seg.shaded_collection
            self.check_part(bad, t, p.illum, ill, ill.list_surfaces, False,
                            gap)
            self.check_part(bad, t, p.shaded, sh, sh.list_surfaces, True,
                            gap)
            now = list(ill.list_surfaces) + list(sh.list_surfaces)
            if sorted(map(id, now)) != sorted(map(id, seg.all_surfaces)):
                bad('list of surfaces is not the current state',
                    'segment lists %d surfaces, has %d' % (
                        len(seg.all_surfaces), len(now)))
            if seg.n_surfaces != len(now) or \
                    len(seg.surface_indices) != len(now):
                bad('number of surfaces is not the current state',
                    '%d' % seg.n_surfaces)
            if abs(seg.shaded_length - sum(
                    s.length for s in sh.list_surfaces)) > TOL:
                bad('shaded length is not the current state',
                    '%r' % seg.shaded_length)
            if not gap:
                self.check_cuts(bad, t, p, now)
                if abs(seg.length - (p.hi - p.lo)) > 10 * TOL:
                    bad('length is not conserved', 'segment: %r, was %r' % (
                        seg.length, p.hi - p.lo))
            all_ += now
            total += sum(b - a for a, b in union(p.shaded))
            n += len(now)
        g = t.obj
        if sorted(map(id, all_)) != sorted(map(id, g.all_surfaces)):
            bad('list of surfaces is not the current state',
                '%d listed, %d there' % (len(g.all_surfaces), len(all_)))
        if g.n_surfaces != n or len(g.surface_indices) != n:
            bad('number of surfaces is not the current state',
                '%d, %d there' % (g.n_surfaces, n))
        if abs(g.shaded_length - total) > 10 * TOL:
            bad('shaded length is wrong', '%r, expected %r' % (
                g.shaded_length, total))
        if not gap and abs(g.length - t.size) > 10 * TOL:
            bad('length is not conserved', '%r, was %r' % (g.length,
                                                           t.size))
        for x in self.keeps:
            if self.owns(x, t):
                both = list(x.front.all_surfaces) + list(x.back.all_surfaces)
                if sorted(map(id, both)) != sorted(map(id, x.all_surfaces)):
                    bad('list of surfaces is not the current state',
                        'row lists %d surfaces, has %d' % (
                            len(x.all_surfaces), len(both)))
                if len(x.surface_indices) != len(both):
                    bad('number of surfaces is not the current state', '')

    def check_part(self, bad, t, model, col, surfs, shaded, gap=False):
        name = 'shaded' if shaded else 'illuminated'
        iv = []
        for s in surfs:
            if bool(s.shaded) != shaded:
                bad('%s part holds the other kind' % name, '')
            ends = [t.along(c) for c in s.coords]
            if any(off > TOL for _, off in ends):
                bad('surface is off the line', '%s part: %s' % (
                    name, list(s.coords)))
            lo, hi = sorted(e[0] for e in ends)
            iv.append((lo, hi))
            nv = np.array(s.n_vector, dtype=float)
            if t.normals and s.length > 1e-4 and not np.allclose(
                    nv / np.linalg.norm(nv), t.normals[0], atol=1e-5):
                bad('surface lost its normal vector', '%s, was %s' % (
                    nv, t.normals[0]))
        got = sum(b - a for a, b in iv)
        cover = sum(b - a for a, b in union(iv))
        if abs(got - cover) > 10 * TOL:
            bad('%s parts overlap' % name, '%r of %r' % (cover, got))
        if not same(iv, model):
            bad('%s part is wrong' % name, '%s, expected %s' % (
                union(iv), union(model)))
        if abs(col.length - got) > TOL:
            bad('length is not that of the surfaces', '%s: %r, %r' % (
                name, col.length, got))
        if col.n_surfaces != len(surfs):
            bad('number of surfaces is not the current state', name)
        shown = [] if col.is_empty else [
            tuple(sorted(t.along(c)[0] for c in g.coords))
            for g in col.geoms]
        if len(shown) != len(iv) or any(
                abs(a - b) > TOL for x, y in zip(sorted(shown), sorted(iv))
                for a, b in zip(x, y)):
            bad('geometry is not that of the surfaces', '%s: %s, surfaces '
                'are %s' % (name, sorted(shown), sorted(iv)))

    def check_cuts(self, bad, t, p, surfs):
        for c in p.cuts:
            for s in surfs:
                lo, hi = sorted(t.along(x)[0] for x in s.coords)
                if lo + 10 * TOL < c < hi - 10 * TOL:
                    bad('cut is gone', 'at %r of %r' % (c, t.size))

    def shrinks(self, sc):
        for ops in list_shrinks(sc['ops']):
            if ops:
                yield dict(sc, ops=ops)
        for objs in list_shrinks(sc['objs']):
            if objs:
                yield dict(sc, objs=objs)
        for i, o in enumerate(sc['objs']):
            for k, v in (('n', 1), ('m', 1), ('angle', 0.), ('x', 0.),
                         ('y', 1.), ('length', 1.), ('params', False),
                         ('shaded', False), ('kind', 'segment')):
                if o[k] != v:
                    yield dict(sc, objs=sc['objs'][:i] + [dict(o, **{k: v})]
                               + sc['objs'][i + 1:])


PROPERTY = C09()
