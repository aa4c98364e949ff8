"""Recording sessions with the GEMPAK file writers and readers (events for DMSession)."""
import copy
from datetime import datetime, timedelta
from pathlib import Path

import numpy as np
import pyproj

from .lib import (
    bits, call, codes, dt5, exact_i, MISSBITS, MISSV, NOKEY, rawbits, toi, unbits, words,
)

_PROJ = {}


def proj(name='eqc'):
    if name not in _PROJ:
        d = {
            'eqc': {'proj': 'eqc', 'lat_0': 0, 'lon_0': 0, 'R': 6371200},
            'lcc': {'proj': 'lcc', 'lat_1': 30, 'lat_2': 50, 'lon_0': -95, 'R': 6371200},
            'stere': {'proj': 'stere', 'lat_0': 90, 'lon_0': -105, 'R': 6371200},
            'merc': {'proj': 'merc', 'lat_ts': 20, 'lon_0': 0, 'R': 6371200},
        }[name]
        _PROJ[name] = pyproj.Proj(d)
    return _PROJ[name]


def grid_object(nx, ny, prec=None, pname='eqc', mutate=False, xy=False):
    from gempakio import GridFile
    p = proj(pname)
    x0, y0 = p(-100.0, 40.0)
    xs = x0 + 50000.0 * np.arange(nx)
    ys = y0 + 60000.0 * np.arange(ny)
    xx, yy = np.meshgrid(xs, ys)
    lon, lat = p(xx, yy, inverse=True)
    args = (xs, ys) if xy else (lon, lat)
    frozen = freeze(list(args))
    g = GridFile(*args, p, use_xy=xy)
    g.verif_same = 1 if freeze(list(args)) == frozen else 0
    if mutate:
        for a in args:
            a[...] = a[..., ::-1] * 1.5
    if prec is not None:
        g.precision = prec
    return g


def freeze(x):
    """A comparable deep snapshot of an argument."""
    if isinstance(x, dict):
        return ('d', [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, np.ma.MaskedArray):
        return ('m', x.dtype.str, x.shape, x.filled(0).tobytes(), str(x.mask))
    if isinstance(x, np.ndarray):
        return ('a', x.dtype.str, x.shape, x.tobytes() if x.dtype != object else str(x.tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, float) and x != x:
        return 'nan'
    return repr(x)


def scramble(x):
    """Modify a mutable argument in place, as a caller reusing its buffers would."""
    if isinstance(x, dict):
        for v in x.values():
            scramble(v)
        for k in list(x):
            if not isinstance(x[k], (dict, list, np.ndarray)):
                x[k] = 77 if isinstance(x[k], (int, float)) else 'ZZZZ'
        x['zzextra'] = 1
    elif isinstance(x, np.ndarray):
        try:
            x[...] = 55
        except (ValueError, TypeError):
            pass
    elif isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], (int, float)):
                x[i] = 55
        x.append(3.0)


GTYPE = 'AFGI'


class Session:
    def __init__(self, ctx, tag='', hist=0, hp=''):
        self.ctx, self.ev, self.objs, self.files = ctx, [], [], []
        self.hist, self.hp, self.tag = hist, hp, tag
        self.meta, self.keys, self.dead = [], [], False
        self.cap = 0                # headers an object may get, when lowered

    # -- objects -------------------------------------------------------------
    def new(self, kind, params=(), nx=0, ny=0, prec=16, e=0, pname='eqc', mutate=False):
        from gempakio import SoundingFile, SurfaceFile
        plist = list(params)
        twin, same = [], 1
        if kind == 'grid' and mutate:
            # what the coordinates put into a file, from an object whose arrays nobody touches
            xy = self.ctx.rng.random() < .5
            p = self.ctx.tmp('twin.gem')
            st, _ = call(lambda: grid_object(nx, ny, prec, pname, xy=xy).to_gempak(p))
            twin = words(p.read_bytes()) if st == 'ok' else []
            p.unlink(missing_ok=True)
            st, o = call(grid_object, nx, ny, prec, pname, True, xy)
            same = o.verif_same if st == 'ok' else 1
        elif kind == 'grid':
            st, o = call(grid_object, nx, ny, prec, pname)
        else:
            st, o = call(SoundingFile if kind == 'sounding' else SurfaceFile, plist)
        if st != 'ok':
            self.dead = True
        if mutate:
            plist.append('ZZZZ')
            plist[0] = 'YYYY'
        self.ev.append({'ev': 'new', 'kind': kind, 'params': [codes(p) for p in params],
                        'nx': nx, 'ny': ny, 'prec': prec, 'tag': self.tag, 'out': st,
                        'same': same, 'twin': twin})
        self.objs.append(o if st == 'ok' else None)
        self.meta.append({'kind': kind, 'e': e, 'nx': nx, 'ny': ny})
        self.keys.append([])
        return len(self.objs) - 1

    def _add(self, o, fn, args, kw, ev, mutate):
        frozen = freeze(list(args)), freeze(kw)
        st, r = call(fn, *args, **kw)
        same = 1 if (freeze(list(args)), freeze(kw)) == frozen else 0
        if mutate:
            for a in args:
                scramble(a)
            for a in kw.values():
                scramble(a)
        ev.update(ev='add', o=o + 1, out=st, same=same, cap=self.cap)
        self.ev.append(ev)
        return st

    def add_station(self, o, x, mutate=False):
        """x: concrete call description, see gen_station."""
        kind = self.meta[o]['kind']
        ob = self.objs[o]
        fn = ob.add_sounding if kind == 'sounding' else ob.add_station
        ev = {'bad': '', 'info': 0 if x['info'] is None else 1,
              't': x['t'], 'lat': toi(x['lat'], 1000), 'lon': toi(x['lon'], 1000)}
        info = x['info'] or {}
        ev.update(sid=codes(str(info.get('station_id', ''))),
                  num=int(info.get('station_number', NOKEY)),
                  elev=int(info.get('elevation', NOKEY)), st=codes(info.get('state', '')),
                  co=codes(info.get('country', '')), prio=info.get('priority', NOKEY))
        ev['data'] = [
            {'n': codes(n), 'v': [bits(q) for q in (v if kind == 'sounding' else [v])]}
            for n, v in x['data'].items()]
        kw = {'station_info': x['info']} if x['info'] is not None or x.get('explicit') else {}
        return self._add(o, fn, [x['data'], x['lat'], x['lon'], x['when']], kw, ev, mutate)

    def add_grid(self, o, x, mutate=False):
        e = self.meta[o]['e']
        a = x['grid']
        iv = [MISSV if q == MISSV else int(q) for q in x['iv']]
        ev = {'bad': '', 't1': x['t1'], 'h2': 1 if x.get('t2') else 0,
              't2': x.get('t2') or {'ty': 0, 't': [2000, 1, 1, 0, 0], 'fh': 0, 'fm': 0},
              'l1': int(x['l1']), 'l2': -1 if x.get('l2') is None else int(x['l2']),
              'vc': codes(x['vc'] or 'NONE'), 'name': codes(x['name']), 'v': iv, 'e': e}
        kw = {}
        if x.get('l2') is not None or x.get('explicit'):
            kw['level2'] = x.get('l2')
        if x.get('t2') or x.get('explicit'):
            kw['date_time2'] = x.get('when2')
        st = self._add(o, self.objs[o].add_grid,
                       [a, x['name'], x['vc'], x['l1'], x['when1']], kw, ev, mutate)
        if st == 'ok':
            self.keys[o].append({k: ev[k] for k in ('t1', 'h2', 't2', 'l1', 'l2', 'vc', 'name')})
        return st

    def add_bad(self, o, reason, args, kw=None):
        """A call expected to be rejected."""
        kind = self.meta[o]['kind']
        fn = {'grid': 'add_grid', 'sounding': 'add_sounding', 'surface': 'add_station'}[kind]
        self._add(o, getattr(self.objs[o], fn), args, kw or {}, {'bad': reason}, False)

    # -- files ----------------------------------------------------------------
    def write(self, o, as_path=False):
        p = self.ctx.tmp('f.gem')
        st, _ = call(self.objs[o].to_gempak, p if as_path else str(p))
        data = p.read_bytes() if p.exists() else b''
        self.ev.append({'ev': 'write', 'o': o + 1, 'out': st, 'w': words(data), 'nb': len(data),
                        'hist': self.hist, 'hp': self.hp})
        self.last = p if st == 'ok' else None
        return self.last

    def read(self, o, path=None, lookups=6):
        path = path or self.last
        kind = self.meta[o]['kind']
        ev = {'ev': 'read', 'o': o + 1, 'hist': self.hist, 'hp': self.hp, 'listing': [],
              'recs': [], 'lookups': [], 'out': 'err'}
        self.ev.append(ev)
        if path is None:
            return ev
        st, r = call(READERS[kind], path, self.meta[o])
        ev['out'] = st
        if st == 'ok':
            ev['listing'], ev['recs'], f = r
            if kind == 'grid' and lookups:
                ks = []
                for k in self.keys[o]:
                    if k not in ks:
                        ks.append(k)
                for k in ks[-lookups:]:
                    st, got = call(lookup_grid, f, k, self.meta[o]['e'])
                    ev['lookups'].append({**k, 'got': got if st == 'ok' else []})
        path.unlink(missing_ok=True)
        return ev


# -- projections of what the readers return ------------------------------------
def p_time(x):
    import pandas as pd
    t = pd.Timestamp(np.asarray(x).item() if not isinstance(x, np.ndarray) else x.ravel()[0])
    return dt5(t.to_pydatetime())


def p_grid_info(g):
    d2 = g.DATTIM2
    return {'ty': g.TYPE, 't1': dt5(g.DATTIM1), 'h2': 0 if d2 is None else 1,
            't2': [2000, 1, 1, 0, 0] if d2 is None else dt5(d2), 'name': codes(g.PARM),
            'l1': -1 if g.LEVEL1 is None else exact_i(g.LEVEL1),
            'l2': -1 if g.LEVEL2 is None else exact_i(g.LEVEL2), 'vc': codes(g.COORD)}


def p_grid(a, e):
    vc = a.dims[1]
    lev = a[vc].values[0]
    vals = np.ma.filled(np.ma.masked_invalid(np.asarray(a.values, dtype=np.float64)), np.nan)
    return {'var': codes(a.name), 't': p_time(a['time'].values),
            'vc': codes(vc), 'lev': -1 if lev is None or lev != lev else exact_i(lev),
            'ty': str(a.attrs['grid_type']), 'nx': a.sizes['x'], 'ny': a.sizes['y'],
            'v': [MISSV if q != q else toi(q, 256.0 / 2.0 ** e) for q in vals.ravel()]}


def read_grid(path, meta):
    from gempakio import GempakGrid
    f = GempakGrid(path)
    listing = [p_grid_info(g) for g in f.gdinfo()]
    recs = [p_grid(a, meta['e']) for a in f.gdxarray()]
    return listing, recs, f


def gt_valid(t):
    d = datetime(*t['t'])
    return d + timedelta(hours=t['fh'], minutes=t['fm'])


def lookup_grid(f, k, e):
    kw = dict(parameter=bytes(k['name']).decode(), date_time=gt_valid(k['t1']),
              coordinate=bytes(k['vc']).decode(), level=k['l1'])
    if k['h2']:
        kw['date_time2'] = gt_valid(k['t2'])
    if k['l2'] >= 0:
        kw['level2'] = k['l2']
    return [p_grid(a, e) for a in f.gdxarray(**kw)]


def p_station_info(s, surface):
    d = {'t': dt5(s.DATTIM), 'id': codes(s.ID), 'num': exact_i(s.NUMBER),
         'lat': toi(s.LAT, 1000), 'lon': toi(s.LON, 1000),
         'elev': exact_i(s.ELEV), 'st': codes(s.STATE), 'co': codes(s.COUNTRY)}
    return d


def p_sounding(d):
    vc = next((c for c in ('pres', 'hght') if c in d.dims), None)
    out = {'t': p_time(d['time'].values), 'id': codes(d.attrs['station_id']),
           'num': exact_i(d.attrs['station_number']), 'lat': toi(d.attrs['lat'], 1000),
           'lon': toi(d.attrs['lon'], 1000), 'elev': exact_i(d.attrs['elevation']),
           'st': codes(d.attrs['state']), 'co': codes(d.attrs['country']), 'vc': vc or '?',
           'vcv': [], 'pv': []}
    if vc:
        out['vcv'] = [rawbits(q) for q in np.asarray(d[vc].values).ravel()]
        out['pv'] = [{'n': codes(n), 'v': [rawbits(q) for q in np.asarray(d[n].values).ravel()]}
                     for n in d.data_vars]
    return out


def read_sounding(path, meta):
    from gempakio import GempakSounding
    f = GempakSounding(path)
    listing = [p_station_info(s, False) for s in f.sninfo()]
    recs = [p_sounding(d) for d in f.snxarray()]
    return listing, recs, f


def p_surface(s):
    p = s['properties']
    return {'t': dt5(p['date_time']), 'id': codes(p['station_id']),
            'num': exact_i(p['station_number']), 'lat': toi(p['latitude'], 1000),
            'lon': toi(p['longitude'], 1000), 'elev': exact_i(p['elevation']),
            'st': codes(p['state']), 'co': codes(p['country']), 'prio': exact_i(p['priority']),
            'pv': [{'n': codes(n), 'v': [rawbits(v) if not isinstance(v, str) else 2147483645]}
                   for n, v in s['values'].items()]}


def read_surface(path, meta):
    from gempakio import GempakSurface
    f = GempakSurface(path)
    listing = [p_station_info(s, True) for s in f.sfinfo()]
    recs = [p_surface(s) for s in f.sfjson()]
    return listing, recs, f


READERS = {'grid': read_grid, 'sounding': read_sounding, 'surface': read_surface}

# -- random concrete arguments ------------------------------------------------
SNPARMS = ['PRES', 'HGHT', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'OMEG', 'CFRL']
SFPARMS = ['PMSL', 'ALTI', 'TMPC', 'DWPC', 'SKNT', 'DRCT', 'VSBY', 'WNUM', 'CHC1', 'P01I']
GDPARMS = ['TMPK', 'HGHT', 'UREL', 'VREL', 'PRES', 'THTA', 'RELH', 'P06M', 'TMPKABCDEFGH',
           'DPRECIP', 'SNOWDEP']
VCS = ['NONE', 'PRES', 'THTA', 'HGHT', 'SGMA', 'DPTH', 'HYBD', 'PVAB', 'PVBL']


def r_time(rng, wide=True):
    y = rng.choice([1969, 1970, 1999, 2000, 2024, 2025, 2068]) if wide and rng.random() < .4 \
        else 2024
    d = datetime(y, 1, 1) + timedelta(days=rng.randrange(365))
    if rng.random() < .5:
        d += timedelta(minutes=rng.choice([0, 60, 600, 720, 1439, 615]))
    else:
        d += timedelta(minutes=rng.randrange(1440))
    return d


def r_sec(rng):
    """What a time has beyond its minute; files hold minutes."""
    if rng.random() < .85:
        return timedelta(0)
    return rng.choice([timedelta(seconds=30), timedelta(seconds=59, microseconds=999999),
                       timedelta(seconds=rng.randrange(1, 60))])


def casing(rng, s):
    return s if rng.random() < .7 else s.lower()


def r_float(rng):
    c = rng.random()
    if c < .12:
        return float('nan')
    if c < .3:
        return float(rng.randrange(-200, 1100))
    if c < .4:
        return rng.choice([0.0, -0.0, 1e-30, 3.4e38, -1e20, 1e-42, 0.1, -9998.0, -9999.5, -9998.95, -9999.02])
    return round(rng.uniform(-100, 1100), 3)


def gen_station(rng, kind, params, key=None, nlev=None):
    """A random sounding/station add; key (from a previous call) re-uses its identity."""
    if key is None:
        t = r_time(rng)
        info = None
        if rng.random() < .85:
            info = {}
            if rng.random() < .9:
                info['station_id'] = casing(rng, rng.choice(
                    ['KMSN', 'KORD', 'ABC', 'X1', '72518000', 'K9A1B2', 'LONGNAME1', '']))
            if rng.random() < .8:
                info['station_number'] = rng.choice([0, 1, 72518, 999999, -5, 10, 20, 70000000])
            if rng.random() < .8:
                info['elevation'] = rng.choice([0, 320, -60, 8848, 5])
            if rng.random() < .7:
                info['state'] = casing(rng, rng.choice(['WI', 'IL', 'NY', '--', 'QUE', 'ONTA', 'ONTARIO']))
            if rng.random() < .7:
                info['country'] = casing(rng, rng.choice(['US', 'CA', 'MX', 'USA', 'MEXI', 'CANADA']))
            if kind == 'surface' and rng.random() < .5:
                info['priority'] = rng.randrange(0, 9)
            if rng.random() < .15:      # the same facts in other types
                for k, other in [('station_id', [72518, 5, 72518000]),
                                 ('station_number', ['72518', '0', 72518.0, np.int32(10), ' 20 ']),
                                 ('elevation', ['320', -60.0, np.float32(8848), '-5'])]:
                    if k in info and rng.random() < .6:
                        info[k] = rng.choice(other)
        c = rng.random()
        lat = rng.randrange(-90, 91) if c < .2 else rng.randrange(-9000, 9001) / 100 \
            if c < .8 else rng.choice([45.004, 45.126, -0.004, -12.346, 33.3333])
        lon = rng.randrange(-180, 181) if c < .2 else rng.randrange(-18000, 18001) / 100 \
            if c < .8 else rng.choice([-89.4, -100.006, 0.004, 151.214])
        key = {'t': t, 'info': info, 'lat': lat, 'lon': lon, 'sec': r_sec(rng)}
    t = key['t']
    f = rng.random()
    if f < .4 or key['sec']:
        when = t + key['sec']
    elif f < .8 or kind == 'surface':
        when = t.strftime('%Y%m%d%H%M')
    else:
        h = rng.choice([0, 1, 6, 12, 48, 120, 7, 100, 999, 1000, 1080, 3600, 8784, 12345])
        when = (t - timedelta(hours=h)).strftime('%Y%m%d%H%M') \
            + rng.choice([f'F{h}', f'F{h:03d}', f'f{h:02d}', f'F{h:05d}', f'f{h:09d}'])
    order = list(params)
    if rng.random() < .5:
        rng.shuffle(order)
    if kind == 'sounding':
        n = nlev or rng.choice([1, 2, 3, 5, 9])
        data = {}
        vert = 'PRES' if 'PRES' in [p.upper() for p in params] else 'HGHT'
        for p in order:
            if p.upper() == vert:
                v = [float(q) for q in rng.sample(range(1, 2000), n)]
                if rng.random() < .5:
                    v.sort(reverse=vert == 'PRES')
                if rng.random() < .2:
                    v = [q + 0.25 for q in v]
            else:
                v = [r_float(rng) for _ in range(n)]
            c = rng.random()
            if c < .3:
                v = np.array(v)
            elif c < .5:
                v = np.array(v, dtype=np.float32)
            elif c < .6:
                v = tuple(v)
            elif c < .7:
                w = np.zeros(2 * n)
                w[::2] = v
                v = w[::2]
            elif c < .75 and all(q == q and q == int(q) and abs(q) < 1e6 for q in v):
                v = np.array(v, dtype=np.int32)
            data[casing(rng, p)] = v
    else:
        data = {}
        for p in order:
            q = r_float(rng)
            c = rng.random()
            data[casing(rng, p)] = np.float32(q) if c < .2 else np.float64(q) if c < .4 \
                else int(q) if c < .5 and q == q and q == int(q) and abs(q) < 1e6 else q
    info = copy.deepcopy(key['info'])
    return {'t': dt5(t), 'when': when, 'lat': key['lat'], 'lon': key['lon'], 'info': info,
            'data': data, 'key': key, 'explicit': rng.random() < .3}


def r_gtime(rng, t, ty=None):
    """-> (model time, argument) for a grid."""
    ty = rng.choice([0, 0, 0, 1, 1, 2, 3]) if ty is None else ty
    fh, fm = rng.choice([0, 0, 3, 6, 24, 120, 240, 999]), rng.choice([0, 0, 0, 15, 59])
    s = t.strftime('%Y%m%d%H%M')
    if ty == 0:
        c = rng.random()
        if c < .4:
            return {'ty': 0, 't': dt5(t), 'fh': 0, 'fm': 0}, t + r_sec(rng)
        if c < .7:
            return {'ty': 0, 't': dt5(t), 'fh': 0, 'fm': 0}, s
        if c < .9:
            return {'ty': 0, 't': dt5(t), 'fh': 0, 'fm': 0}, s + casing(rng, 'A')
    let = {0: 'A', 1: rng.choice('FV'), 2: 'G', 3: 'I'}[ty]
    if ty == 0:
        fh = min(fh, 240)
    if rng.random() < .2:
        fh, fm, suf = 0, 0, ''
    elif fm or rng.random() < .2:
        suf = f'{fh:03d}{fm:02d}'
    else:
        suf = f'{fh:03d}' if rng.random() < .7 else f'{fh}'
    return {'ty': ty, 't': dt5(t), 'fh': fh, 'fm': fm}, s + casing(rng, let) + suf


def gen_grid(rng, nx, ny, e, key=None, style=None, prec=16):
    if key is None:
        t1, w1 = r_gtime(rng, r_time(rng))
        key = {'t1': t1, 'when1': w1, 'l1': rng.choice([0, 2, 10, 500, 850, 1000, 30000]),
               'name': rng.choice(GDPARMS), 'vc': rng.choice(VCS)}
        if rng.random() < .3:
            key['l2'] = rng.choice([0, 30, 700, 1000])
        if rng.random() < .3:
            key['t2'], key['when2'] = r_gtime(rng, r_time(rng), t1['ty'])
    n = nx * ny
    style = style or rng.choice(['plain', 'plain', 'miss', 'miss', 'const', 'constmiss',
                                 'allmiss', 'steps', 'neg', 'full', 'near'])
    lo, hi = rng.choice([(0, 1), (0, 255), (-300, 700), (0, 32000), (-32000, 32000),
                         (100, 103), (0, 2 ** rng.randrange(1, 15))])
    if style == 'neg':
        lo, hi = -hi - 1, -lo - 1
    if style == 'full':
        # the range sits at the largest codes for the number of bits, or just beside them
        m = min(prec, 20)
        d = (2 ** m - rng.choice([0, 1, 1, 1, 2])) * 2 ** rng.choice([0, 0, 1])
        lo = rng.choice([0, 0, 5, -9, -d])
        hi = lo + max(d, 1)
    if style == 'near' and prec >= 8 and -12 <= e <= 0:
        # valid values beside the missing value
        lo = round(-9999 / 2.0 ** e) - rng.randrange(4)
        hi = lo + rng.randrange(1, 6)
    if 'const' in style:
        hi = lo
    iv = [rng.randrange(lo, hi + 1) for _ in range(n)]
    if n > 1 and 'const' not in style and rng.random() < .5:
        iv[rng.randrange(n)] = lo
        iv[rng.randrange(n)] = hi
        if style == 'full' and rng.random() < .5:
            iv = [rng.choice([lo, hi, hi - 1, q]) for q in iv]
            iv[0], iv[-1] = lo, hi
    if style in ('miss', 'constmiss') or style == 'full' and n > 2:
        for k in range(n) if style != 'full' else range(1, n - 1):
            if rng.random() < .3:
                iv[k] = MISSV
    if style == 'allmiss':
        iv = [MISSV] * n
    # -9999 is the missing value itself
    iv = [MISSV if q * 2.0 ** e == -9999 else q for q in iv]
    dtype = rng.choice([np.float64, np.float64, np.float32])
    a = np.array([np.nan if q == MISSV else q * 2.0 ** e for q in iv], dtype=dtype)
    if rng.random() < .3:
        a[np.isnan(a)] = -9999.0
    a = a.reshape(ny, nx)
    c = rng.random()
    if c < .15:
        a = np.asfortranarray(a)
    elif c < .3:
        b = np.zeros((2 * ny, nx), dtype=dtype)
        b[::2] = a
        a = b[::2]
    elif c < .4:
        a = a.copy()
        a.flags.writeable = False
    x = dict(key)
    x.update(grid=a, iv=iv, key=key, explicit=rng.random() < .3)
    x['name'] = casing(rng, key['name'])
    x['vc'] = None if key['vc'] == 'NONE' and rng.random() < .5 else casing(rng, key['vc'])
    if rng.random() < .1:
        x['l1'] = float(x['l1'])
    return x


def bad_adds(rng, kind, params=(), nx=0, ny=0):
    """(reason, args, kwargs) of calls that must be rejected."""
    t = datetime(2024, 5, 6, 12)
    out = []
    if kind == 'grid':
        g = np.arange(float(nx * ny)).reshape(ny, nx)
        ok = [g, 'TMPK', 'PRES', 500, t]

        def v(r, i=None, val=None, **kw):
            a = list(ok)
            if i is not None:
                a[i] = val
            out.append((r, a, kw))
        v('type', 0, g.tolist())
        v('shape', 0, np.zeros((ny + 1, nx)))
        v('rank', 0, np.zeros(nx * ny))
        v('name-long', 1, 'ABCDEFGHIJKLM')
        v('name-type', 1, 5)
        v('vc-type', 2, 5)
        v('vc-long', 2, 'PRESS')
        v('vc-unknown', 2, 'ABCD')
        v('level-type', 3, '500')
        v('level-none', 3, None)
        v('date-short', 4, '2024050612')
        v('date-bad', 4, '202413061200')
        v('date-letter', 4, '202405061200Q012')
        v('date-two', 4, '202405061200F012F003')
        v('date-type', 4, 20240506)
        v('date2-short', date_time2='2024050612')
        v('date2-bad', date_time2='202413061200')
        v('date2-type', date_time2=5)
        v('date2-mismatch', 4, '202405061200F012', date_time2='202405061200G012')
        v('level2-type', level2='7')
        v('grid-dtype', 0, np.array([['x'] * nx] * ny))
        v('fhour', 4, '202405061200F0x')
        out.append(('both', [g, 'TMPK', 'ABCD', 500, '202405061200F006'],
                    {'date_time2': '202405061200F012', 'level2': 3}))
    else:
        def dat(val):
            return {p: (list(val) if kind == 'sounding' else val[0]) for p in params}
        d = dat([1.0, 2.0, 3.0])
        info = {'station_id': 'BAD1', 'station_number': 5, 'elevation': 7}
        ok = [d, 10.0, 20.0, t]

        def v(r, i=None, val=None, st=info):
            a = list(ok)
            if i is not None:
                a[i] = val
            out.append((r, a, {'station_info': st}))
        v('data-type', 0, [1, 2])
        v('data-missing', 0, dict(list(d.items())[1:]))
        v('data-extra', 0, {**d, 'ZZZZ': d[params[0]]})
        v('data-none', 0, {**d, params[-1]: None})
        v('lat-type', 1, '10')
        v('lon-type', 2, None)
        v('date-bad', 3, '202413061200')
        v('date-short', 3, '2024')
        v('date-type', 3, 20240506)
        v('info-num', st={**info, 'station_number': 'abc'})
        v('info-elev', st={**info, 'elevation': None})
        v('info-type', st=[1, 2])
        if kind == 'sounding':
            v('lengths', 0, {**d, params[-1]: [1.0, 2.0]})
            v('too-long', 0, dat([float(q) for q in range(600)]))
            v('date-f', 3, '202405061200Fxx')
        else:
            v('array', 0, {**d, params[-1]: np.array([1.0, 2.0])})
            v('text', 0, {**d, params[-1]: 'abc'})
    return out


__all__ = [n for n in dir() if not n.startswith('_')]
_ = (unbits, MISSBITS, Path)
