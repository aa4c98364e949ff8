"""G21: geometry of grid files, written and read, against Geometry.tla."""
from datetime import datetime
import math
import struct

import numpy as np
import pyproj

from .lib import call

R = 6371200.
MAXR = {'stere': 8e6, 'aeqd': 8e6, 'laea': 7e6, 'ortho': 5.4e6, 'gnom': 6e6}
NAV = ('left', 'bottom', 'kx', 'ky', 'lllat', 'lllon', 'urlat', 'urlon', 'a1', 'a2', 'a3')


def mil(v):
    v = float(v)
    return round(v * 1000) if math.isfinite(v) else 2000000000


def metre(v):
    v = float(v)
    return round(v) if abs(v) < 2e9 else 2000000000


def nav_pos(raw):
    return (struct.unpack_from('<i', raw, 36)[0] - 1) * 4 + 2 * 12 + 4


def read_nav(raw):
    """The navigation block of a (little endian) written file, straight from its bytes."""
    p = nav_pos(raw)
    out = {'kind': raw[p + 4:p + 8].decode('latin1').strip()}
    vals = struct.unpack_from('<11f', raw, p + 8)
    for k, v in zip(NAV, vals):
        out[k] = mil(v) if k[:2] in ('ll', 'ur', 'a1', 'a2', 'a3') else metre(v)
    return out


def read_anl(raw):
    """The analysis block behind it."""
    p = nav_pos(raw) + 4 * 256
    size, = struct.unpack_from('<i', raw, p)
    v = struct.unpack_from('<18f', raw, p + 4)
    return {'size': size, 'gtype': metre(struct.unpack_from('<f', raw, nav_pos(raw))[0]),
            'type': metre(v[0]), 'dn': mil(v[1]) // 10, 'ext': [metre(x) for x in v[2:6]],
            'areas': [[mil(x) for x in v[k:k + 4]] for k in (6, 10, 14)]}


def patch_nav(raw, nav):
    raw = bytearray(raw)
    p = nav_pos(raw)
    raw[p + 4:p + 8] = nav['kind'].ljust(4).encode()
    for i, k in enumerate(NAV):
        if k in nav:
            struct.pack_into('<f', raw, p + 8 + 4 * i, nav[k])
    return bytes(raw)


def quarter(rng, a, b):
    return rng.randint(4 * a, 4 * b) / 4


def caller(rng, family):
    """A projection as a caller gives it: the model's record and the PROJ parameters."""
    c = {'family': family, 'lat0': 0., 'lon0': quarter(rng, -180, 180), 'lat1': 0., 'lat2': 0.,
         'ts': 0., 'two': 0, 'rot': rng.choice([0, 0, 0, 12.5, -30])}
    d = {'proj': family, 'lon_0': c['lon0']}
    if family == 'lcc':
        s = rng.choice([1, 1, -1])
        c['lat1'] = s * quarter(rng, 15, 60)
        d['lat_1'] = c['lat1']
        how = rng.choice(['one', 'two', 'equal'])
        if how == 'one':
            d['lat_0'] = c['lat1']
        else:
            c['two'] = 1
            c['lat2'] = c['lat1'] if how == 'equal' else s * quarter(rng, 15, 75)
            if how == 'two' and rng.random() < .35:     # one parallel on or beyond the equator
                c['lat2'] = rng.choice([0., -s * quarter(rng, 1, 10)])
                if rng.random() < .4 and c['lat2'] == 0:
                    c['lat1'], c['lat2'] = 0., c['lat1']
                    d['lat_1'] = 0.
            d['lat_2'] = c['lat2']
            d['lat_0'] = rng.choice([c['lat1'], s * quarter(rng, 0, 60), 0])
    elif family == 'merc':
        if rng.random() < .4:
            c['ts'] = quarter(rng, 5, 40)
            d['lat_ts'] = c['ts']
    elif family == 'eqc':
        if rng.random() < .4:
            d['lat_ts'] = quarter(rng, 5, 40)
    else:
        c['lat0'] = rng.choice([90., -90., 0., quarter(rng, -85, 85), quarter(rng, 20, 70)])
        d['lat_0'] = c['lat0']
        if family == 'stere' and abs(c['lat0']) == 90 and rng.random() < .6:
            d['lat_ts'] = math.copysign(rng.choice([60, 70, 45.5]), c['lat0'])
    return c, d


def rectangle(rng, family, proj, c, scale):
    """Projected corner coordinates x0 < x1, y0 < y1 of a region within the projection."""
    if family in MAXR:
        m = MAXR[family] * scale / math.sqrt(2)
        x = sorted(rng.uniform(-m, m) for _ in range(2))
        y = sorted(rng.uniform(-m, m) for _ in range(2))
        if rng.random() < .2:       # symmetric about the centre
            x = [-abs(x[1]), abs(x[1])]
            y = [-abs(x[1]), abs(x[1])]
    elif family == 'lcc':
        s = 1 if c['lat1'] + c['lat2'] > 0 else -1
        lat, dlon = s * rng.uniform(10, 60), rng.uniform(-35, 35)
        cx, cy = proj(c['lon0'] + dlon, lat)
        h, w = rng.uniform(2e5, 1.5e6) * scale, rng.uniform(2e5, 2.5e6) * scale
        x, y = [cx - w, cx + w], [cy - h, cy + h]
    else:
        lat = sorted(rng.sample(range(-16, 17), 2)) if family == 'merc' else sorted(rng.sample(range(-18, 19), 2))
        lon0 = rng.choice([-180, -90, 0, c['lon0'] - 180, c['lon0'], rng.uniform(-180, 180)])
        span = rng.choice([360, 359, 180, 90, 350, rng.uniform(5, 355)])
        if span == 360:     # all the way round is told from no way at all by its exact corners
            lon0 = round(lon0 * 4) / 4
        return (lon0, span, lat[0] * 5., lat[1] * 5.)
    if x[1] - x[0] < 5e4:
        x[1] += 1e5
    if y[1] - y[0] < 5e4:
        y[1] += 1e5
    return x + y


def plane(proj, scale, xs, ys):
    lon, lat = proj(*np.meshgrid(xs, ys), inverse=True)
    return lon, lat


def layout(rng, family, proj, c, nx, ny, scale, flips):
    """(xs, ys, lons, lats) of a grid; on cylinders xs is None when it leaves the projection."""
    r = rectangle(rng, family, proj, c, scale)
    if family in ('merc', 'eqc'):
        lon0, span, lat0, lat1 = r
        lons = lon0 + np.linspace(0, span, nx)
        edge = [proj(c['lon0'], a)[1] for a in (lat0, lat1)]
        ys = np.linspace(*edge, ny)
        if flips and rng.random() < .3:
            ys = ys[::-1]
        _, lats = proj(np.full(ny, float(c['lon0'])), ys, inverse=True)
        lon, lat = np.meshgrid(lons, lats)
        # in one piece within the projection?
        east = proj(c['lon0'] + 90, 0)[0] - proj(c['lon0'], 0)[0]
        xs = proj(c['lon0'], 0)[0] + (lons - c['lon0']) / 90 * east
        k = np.floor((lons - c['lon0'] + 180) / 360)
        if k.min() != k.max() or k.min() != 0:
            xs = None
        return xs, ys, lon, lat
    xs, ys = np.linspace(r[0], r[1], nx), np.linspace(r[2], r[3], ny)
    if flips and rng.random() < .3:
        ys = ys[::-1]
    if flips and rng.random() < .2:
        xs = xs[::-1]
    lon, lat = plane(proj, scale, xs, ys)
    return xs, ys, lon, lat


def values(nx, ny):
    return np.arange(nx * ny, dtype=float).reshape(ny, nx)


def look(ctx, path, kind, nx, ny, lon, lat):
    """Events for what a reader says of the grid in a file."""
    from gempakio import GempakGrid
    rng = ctx.rng
    e = {'ev': 'grid', 'kind': kind, 'nx': nx, 'ny': ny, 'out': 'ok', 'tag': ''}
    st, g = call(GempakGrid, str(path))
    if st == 'ok':
        st, arr = call(lambda: g.gdxarray()[0])
        if st != 'ok':
            g = arr
    if st != 'ok':
        return [{**e, 'out': st, 'why': repr(g)[:200]}]
    e |= {'kx': int(g.kx), 'ky': int(g.ky), 'x': [metre(v) for v in g.x],
          'y': [metre(v) for v in g.y], 'latshape': list(g.lat.shape),
          'lonshape': list(g.lon.shape)}
    ses = [e]
    pts = {(j, i) for j in (0, ny - 1) for i in (0, nx - 1)}
    pts |= {(rng.randrange(ny), rng.randrange(nx)) for _ in range(10)}
    if g.lat.shape != (ny, nx) or arr.shape != (1, 1, ny, nx):
        return ses
    for j, i in sorted(pts):
        px, py = g.project_point(float(g.lon[j, i]), float(g.lat[j, i]))
        ses.append({
            'ev': 'point', 'kind': kind, 'j': j, 'i': i, 'tag': '',
            'lat': mil(lat[j, i]), 'lon': mil(lon[j, i]),
            'gotlat': mil(g.lat[j, i]), 'gotlon': mil(g.lon[j, i]),
            'arrlat': mil(arr.coords['lat'].values[j, i]),
            'arrlon': mil(arr.coords['lon'].values[j, i]),
            'arrx': metre(arr.coords['x'].values[i]), 'arry': metre(arr.coords['y'].values[j]),
            'gotx': metre(g.x[i]), 'goty': metre(g.y[j]), 'px': metre(px), 'py': metre(py),
            'val': metre(np.ma.filled(arr.values[0, 0, j, i], -1)), 'want': j * nx + i})
    return ses


def size(rng):
    return rng.choice([(2, 2), (2, 5), (7, 3), (10, 9), (31, 17), (40, 25)])


def written(ctx, family):
    """A caller's grid through the writer and the reader."""
    from gempakio import GridFile
    rng = ctx.rng
    c, d = caller(rng, family)
    ell = rng.random() < .25
    d |= {'ellps': rng.choice(['WGS84', 'GRS80'])} if ell else {'R': rng.choice([R, R, 6371229., 6370000.])}
    if rng.random() < .3:
        d |= {'x_0': rng.choice([0, 5e5]), 'y_0': rng.choice([0, -2e6])}
    proj = pyproj.Proj(d)
    nx, ny = size(rng)
    scale = rng.choice([1, .5, .1])
    c0 = pyproj.Proj({**d, 'x_0': 0, 'y_0': 0})
    xs, ys, lon, lat = layout(rng, family, c0, c, nx, ny, scale, True)
    xy = xs is not None and rng.random() < .5
    turned = lon + np.where((lon < 0) & (rng.random() < .5), 360, 0)
    ab = (xs + d.get('x_0', 0), ys + d.get('y_0', 0)) if xy else (turned, lat.copy())
    st, f = call(lambda: GridFile(
        *ab, proj,
        use_xy=xy, **({'rotation': c['rot']} if c['rot'] or rng.random() < .5 else {})))
    e = {'ev': 'stored', 'c': {k: (mil(v) if isinstance(v, float) or k == 'rot' else v)
                               for k, v in c.items()},
         'out': st, 'nx': nx, 'ny': ny, 'lllat': mil(lat[0, 0]), 'lllon': mil(lon[0, 0]),
         'urlat': mil(lat[-1, -1]), 'urlon': mil(lon[-1, -1]), 'tag': '', 'proj': proj.srs,
         'mid': [mil(g[ny // 2 + k, nx // 2 + k]) for k in (-1, 0) for g in (lat, lon)]}
    if rng.random() < .5:       # the caller's arrays are the caller's
        for a in ab:
            a *= 3
    path = ctx.tmp('geo.gem')
    if st == 'ok':
        def put():
            f.add_grid(values(nx, ny), 'TMPK', 'PRES', 500, datetime(2024, 1, 1))
            f.to_gempak(path)
        e['out'], r = call(put)
        if e['out'] == 'ok':
            e['nav'], e['anl'] = read_nav(path.read_bytes()), read_anl(path.read_bytes())
    else:
        r = f
    if e['out'] != 'ok':
        return [{**e, 'why': repr(r)[:200]}]
    ses = [e]
    if not ell and (c['rot'] == 0 or family == 'lcc'):
        ses += look(ctx, path, e['nav']['kind'], nx, ny, lon, lat)
    path.unlink()
    return ses


def stored_navs(rng, n):
    kinds = ['MER', 'CED', 'MCD', 'LCC', 'SCC', 'STR', 'NPS', 'SPS', 'AED', 'ORT', 'NOR', 'SOR', 'LEA', 'GNO']
    out = []
    for k in range(n):
        kind = kinds[k % len(kinds)]
        a1 = a3 = 0.
        if kind in ('LCC', 'SCC'):
            s = 1 if kind == 'LCC' and rng.random() < .7 else -1
            a1, a3 = s * quarter(rng, 15, 60), s * quarter(rng, 15, 60)
            if rng.random() < .4:
                a3 = a1
        elif kind == 'NPS':
            a1 = 90.
        elif kind == 'SPS':
            a1 = -90.
        elif kind == 'MCD':
            a1 = rng.choice([0., 0., 0., 1.25])
        elif kind not in ('MER', 'CED'):
            a1 = rng.choice([90., -90., 0., quarter(rng, -85, 85), quarter(rng, 20, 70)])
        out.append({'kind': kind, 'a1': a1, 'a2': quarter(rng, -180, 180), 'a3': a3})
    return out


def foreign(ctx, nav, meaning, template):
    """A file whose navigation block was not made by the writer."""
    rng = ctx.rng
    family, lats = meaning['proj'], [v / 1000 for v in meaning['lats']]
    d = {'proj': family, 'lon_0': meaning['lon0'] / 1000, 'R': R}
    c = {'lon0': d['lon_0'], 'lat1': 0, 'lat2': 0}
    if family == 'lcc':
        d |= {'lat_1': lats[0], 'lat_2': lats[1]}
        c['lat1'], c['lat2'] = lats
    elif lats:
        d['lat_0'] = lats[0]
    proj = pyproj.Proj(d)
    (nx, ny), raw = template
    _xs, _ys, lon, lat = layout(rng, family, proj, c, nx, ny, rng.choice([1, .5, .1]), False)
    nav = {**nav, 'lllat': lat[0, 0], 'lllon': lon[0, 0], 'urlat': lat[-1, -1], 'urlon': lon[-1, -1]}
    path = ctx.tmp('nav.gem')
    path.write_bytes(patch_nav(raw, nav))
    ses = look(ctx, path, nav['kind'], nx, ny, lon, lat)
    ses[0]['nav'] = {k: str(v) for k, v in nav.items()}
    path.unlink()
    return ses


def templates(ctx):
    from gempakio import GridFile
    out = []
    for nx, ny in [(2, 2), (7, 3), (10, 9), (31, 17), (6, 13)]:
        f = GridFile(np.linspace(0, 1e6, nx), np.linspace(0, 1e6, ny),
                     pyproj.Proj('+proj=eqc +R=6371200'), use_xy=True)
        f.add_grid(values(nx, ny), 'TMPK', 'PRES', 500, datetime(2024, 1, 1))
        path = ctx.tmp('tmpl.gem')
        f.to_gempak(path)
        out.append(((nx, ny), path.read_bytes()))
    return out


def run(ctx):
    ctx.model('MCGeometry', cfg=ctx.n('MCGeometry.cfg', 'MCGeometry9.cfg'))
    ses = []
    for _ in range(ctx.n(40, 400)):
        for family in ('merc', 'eqc', 'lcc', 'stere', 'aeqd', 'ortho', 'laea', 'gnom'):
            ses.append(written(ctx, family))
    navs = stored_navs(ctx.rng, ctx.n(280, 2800))
    means = ctx.tla_eval('GeometryEval', [
        {'kind': n['kind'], **{k: mil(n[k]) for k in ('a1', 'a2', 'a3')}} for n in navs],
        cfg='GeometryEval.cfg')
    st, tm = call(templates, ctx, limit=60)
    if st == 'ok':
        for n, m in zip(navs, means):
            ses.append(foreign(ctx, n, m, ctx.rng.choice(tm)))
    else:
        ctx.notes['templates'] = repr(tm)
    ctx.judge('GeometryTrace', ses, cfg='GeometryTrace.cfg')
