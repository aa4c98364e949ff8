"""G26: which calls are accepted and refused, judged against DMValid.tla."""
from datetime import date, datetime
import json
import string

import numpy as np

from . import gemfiles as gf, gemread as gr, gemsess as gs
from .lib import call

PROJS = {'merc': '+proj=merc +lat_ts=20 +lon_0=-100', 'stere': '+proj=stere +lat_0=90 +lon_0=-105',
         'lcc': '+proj=lcc +lat_1=30 +lat_2=50 +lon_0=-95', 'eqc': '+proj=eqc +lon_0=-100',
         'ortho': '+proj=ortho +lat_0=40 +lon_0=-100', 'aeqd': '+proj=aeqd +lat_0=40 +lon_0=-100',
         'laea': '+proj=laea +lat_0=40 +lon_0=-100', 'gnom': '+proj=gnom +lat_0=40 +lon_0=-100'}
OTHERS = {'aea': '+proj=aea +lat_1=20 +lat_2=50', 'eqdc': '+proj=eqdc +lat_1=20 +lat_2=50',
          'sterea': '+proj=sterea +lat_0=50 +lon_0=-100',
          **{p: f'+proj={p}' for p in ('robin', 'moll', 'sinu', 'vandg', 'goode', 'cea', 'mill',
                                       'poly', 'latlong')}}


def codes(s):
    """The characters of a text."""
    return [ord(c) for c in s]


def pick(rng, good, bad, q=.1):
    """A good choice, or now and then a bad one."""
    return rng.choice(bad) if rng.random() < q else rng.choice(good)


# --- dates -------------------------------------------------------------------------
def stamp(rng):
    if rng.random() < .12:
        return (f'{rng.randrange(1970, 2068)}{rng.randrange(14):02d}{rng.randrange(33):02d}'
                f'{rng.randrange(25):02d}{rng.randrange(61):02d}')
    return gs.r_time(rng).strftime('%Y%m%d%H%M')


def spoil(rng, s):
    i = rng.randrange(len(s) + 1)
    c = rng.randrange(4)
    x = rng.choice('0123456789' + ' -+_AFVGIxT.:')
    if c == 0:
        return s[:i] + x + s[i:]
    if c == 1:
        return s[:i] + s[i + 1:]
    if c == 2 and i < len(s):
        return s[:i] + x + s[i + 1:]
    return rng.choice([s[:10], s[:8], s + '00', '', s[2:], s[:12] + 'F', s + 'F012', ' ' + s, s + '\n',
                       f'{s[:4]}-{s[4:6]}-{s[6:8]} {s[8:10]}:{s[10:12]}'])


def when(rng, kind, q=.1):
    c = rng.random()
    if c < .3:
        return {'ty': 'datetime', 's': []}, gs.r_time(rng) + gs.r_sec(rng)
    if c < .34:
        v = rng.choice([None, 20240101, 2.0, b'202405061200', ['202405061200'], date(2024, 5, 6),
                        np.datetime64('2024-05-06T12:00')])
        return {'ty': type(v).__name__ if v is not None else 'nothing', 's': []}, v
    s = stamp(rng)
    if kind == 'grid' and rng.random() < .6:
        h, m = rng.choice([0, 6, 12, 120, 240]), rng.choice([0, 15, 59])
        s += rng.choice('AFVGIafvgi') + rng.choice(['', f'{h:03d}', f'{h:03d}{m:02d}', f'{h}'])
    elif kind == 'sounding' and rng.random() < .4:
        s += rng.choice('Ff') + rng.choice(['0', '6', '012', '120', '72', '1080', '87600', '0000006'])
    if rng.random() < q:
        s = spoil(rng, s)
    return {'ty': 'str', 's': codes(s)}, s


# --- numbers, texts ------------------------------------------------------------------
def num(rng, good, q=.07):
    v = rng.choice(good)
    c = rng.random()
    if c > q:
        return {'ty': type(v).__name__}, v
    if c < q / 7:
        return {'ty': 'numpy'}, rng.choice([np.int64(v), np.float32(v)])
    x = rng.choice([str(v), None, [v], (v,), {}, 1j, b'5'])
    return {'ty': type(x).__name__ if x is not None else 'nothing'}, x


def text(rng, good, bad, q=.08):
    c = rng.random()
    if c < q / 2:
        v = rng.choice([5, ['A'], b'PRES', 2.5])
        return {'ty': type(v).__name__, 's': []}, v
    v = rng.choice(bad) if c < q else wide(rng, gs.casing(rng, rng.choice(good)))
    return {'ty': 'str', 's': codes(v)}, v


def word(rng, n):
    return rng.choice(string.ascii_uppercase) + ''.join(
        rng.choice(string.ascii_uppercase + string.digits) for _ in range(n - 1))


# characters of two and three bytes, without case, that may stand in a parameter name
WIDE = 'ÅÄÖΩ中語'


def wide(rng, s, q=.08):
    """The text, now and then with one or two characters of several bytes."""
    if rng.random() < q and s:
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(s))
            s = s[:i] + rng.choice(WIDE) + s[i + 1:]
    return s


# --- grids -----------------------------------------------------------------------------
class Maker:
    def __init__(self, ctx):
        self.ctx, self.rng, self.ev, self.obj = ctx, ctx.rng, [], None

    def new_grid(self):
        from gempakio import GridFile
        import pyproj
        rng = self.rng
        nx, ny = rng.choice([(3, 2), (2, 2), (4, 5), (5, 4), (2, 6)])
        c = rng.random()
        name = rng.choice(sorted(PROJS)) if c < .75 else rng.choice(sorted(OTHERS)) if c < .93 \
            else rng.choice(['text', 'none'])
        s = PROJS.get(name) or OTHERS.get(name, '+proj=merc')
        p = pyproj.Proj(s + ' +R=6371200')
        xy = rng.random() < .4
        lat0, lon0 = (52.0, -100.0) if name == 'sterea' else (40.0, -100.0)
        x0, y0 = p(lon0, lat0)
        step = 1.0 if name == 'latlong' else 50000.0
        xs, ys = x0 + step * np.arange(nx), y0 + step * np.arange(ny)
        lon, lat = p(*np.meshgrid(xs, ys), inverse=True) if name != 'latlong' else np.meshgrid(xs, ys)
        args = [xs, ys] if xy else [lon, lat]
        if rng.random() < .25:
            i = rng.randrange(2)
            f = rng.choice([lambda a: a.ravel(), lambda a: a[None], lambda a: a.T, lambda a: a[..., :-1],
                            lambda a: np.float64(5.0)])
            args[i] = f(args[i])
            if rng.random() < .5:
                args[1 - i] = f(args[1 - i])
        if name in ('text', 'none'):
            p = s if name == 'text' else None
        st, o = call(GridFile, args[0], args[1], p, use_xy=xy)
        self.ev.append({'ev': 'new', 'tag': 'new-grid', 'kind': 'grid', 'nx': nx, 'ny': ny, 'proj': name,
                        'xy': int(xy), 'lon': list(args[0].shape), 'lat': list(args[1].shape), 'out': st,
                        'why': why(st, o)})
        self.obj = o if st == 'ok' else None
        self.nx, self.ny = (o.nx, o.ny) if st == 'ok' else (nx, ny)

    def add_grid(self, date=None):
        rng, nx, ny = self.rng, self.nx, self.ny
        g = np.arange(float(nx * ny)).reshape(ny, nx)
        gd, c = {'ty': 'array'}, rng.random()
        if c < .06:
            g = rng.choice([g.T, g.ravel(), g[None], g[:, :-1], g[:-1], np.vstack([g, g]), g[0], g[0, 0:0]])
        elif c < .1:
            gd, g = {'ty': 'list'}, rng.choice([g.tolist(), None, 5.0, tuple(map(tuple, g))])
        elif c < .12:
            gd, g = {'ty': 'text'}, np.array([['x'] * nx] * ny)
        elif c < .25:
            g = rng.choice([g.astype(np.float32), g.astype(int), np.ma.masked_array(g, g > 1)])
        gd['shape'] = list(g.shape) if isinstance(g, np.ndarray) else []
        d, args = {'grid': gd}, [g]
        for k, (a, v) in (('name', text(rng, gs.GDPARMS + ['A' * 12], ['A' * 13, 'A' * 20, 'T'.ljust(13)])),
                          ('vc', text(rng, gs.VCS, ['PRESS', 'ABCD', 'P', 'PRE', '', 'PRES '])),
                          ('l1', num(rng, [0, 500, 850.0, 2])), ('t1', when(rng, 'grid'))):
            d[k] = a
            args.append(v)
        if rng.random() < .2:
            d['vc'], args[2] = {'ty': 'none', 's': []}, None
        if date is not None:
            d['t1'], args[4] = {'ty': 'str', 's': date}, bytes(date).decode()
        kw = {}
        d['l2'], d['t2'] = {'ty': 'none'}, {'ty': 'none', 's': []}
        if rng.random() < .4:
            a, kw['level2'] = num(rng, [0, 100, 300.0])
            d['l2'] = {'ty': 'none'} if kw['level2'] is None else a
        if rng.random() < .4:
            a, kw['date_time2'] = when(rng, 'grid')
            d['t2'] = {'ty': 'none', 's': []} if kw['date_time2'] is None else a
            if rng.random() < .5 and d['t1']['ty'] == 'str' and a['ty'] == 'str':
                # most often of the type of the first
                t, u = args[4].upper(), kw['date_time2'].upper()
                i = [k for k, q in enumerate(t) if q in 'AFVGI']
                j = [k for k, q in enumerate(u) if q in 'AFVGI']
                if i and j:
                    u = u[:j[0]] + t[i[0]] + u[j[0] + 1:]
                    d['t2'], kw['date_time2'] = {'ty': 'str', 's': codes(u)}, u
        st, r = call(self.obj.add_grid, *args, **kw)
        self.ev.append({'ev': 'add', 'tag': 'add-grid', 'out': st, 'why': why(st, r), **d})

    # --- soundings and reports ---------------------------------------------------------------
    def new_stn(self, kind):
        from gempakio import SoundingFile, SurfaceFile
        rng = self.rng
        n = pick(rng, [1, 2, 3, 5], [44, 45, 46, 60, 0, 43], .15)
        names = []
        while len(names) < n:
            w = word(rng, pick(rng, [4, 4, 3, 2, 1], [5, 5, 6, 8, 11], .02 if n > 9 else .05))
            w = wide(rng, w, .08 / n)
            if w not in names:
                names.append(w)
        if kind == 'sounding' and n and rng.random() < .6:
            names[0] = 'PRES'
        names = [gs.casing(rng, w) for w in names]
        ty, v, odd = 'list', names, 0
        c = rng.random()
        if c < .2:
            ty, v = rng.choice([('tuple', tuple(names)), ('array', np.array(names, dtype='U12'))])
        elif c < .26:
            ty, v = rng.choice([('str', 'PRES'), ('dict', dict.fromkeys(names)), ('set', set(names)),
                                ('none', None)])
        elif c < .28 and n > 1:
            names[-1], odd, ty, v = '', 1, 'list', [*names[:-1], rng.choice([5, None])]
        pack = int(rng.random() < .06)
        st, o = call(SoundingFile if kind == 'sounding' else SurfaceFile, v, **({'pack_data': True} if pack else {}))
        self.ev.append({'ev': 'new', 'tag': f'new-{kind}', 'kind': kind, 'ty': ty, 'odd': odd, 'pack': pack,
                        'params': [codes(w) for w in names], 'out': st, 'why': why(st, o)})
        self.obj, self.kind, self.names = (o if st == 'ok' else None), kind, names

    def data(self):
        rng = self.rng
        if rng.random() < .03:
            return {'ty': 'other', 'v': []}, rng.choice([[1.0, 2.0], None, 'PRES', 5.0])
        n = pick(rng, [1, 2, 3, 9], [499, 500, 501, 499, 501, 600, 0], .1)
        d, v = {}, []
        names = list(self.names)
        c = rng.random()
        if c < .05:
            names.pop(rng.randrange(len(names)))
        elif c < .1:
            names.append(word(rng, 4))
        elif c < .12:
            names[rng.randrange(len(names))] = word(rng, 4)
        odd = rng.choice(names) if names and rng.random() < .12 else None
        how = rng.choice(['len', 'none', 'text', 'swap'])
        for w in names:
            k = gs.casing(rng, w)
            m = n
            x = [float(q) for q in range(1, n + 1)] if self.kind == 'sounding' else float(n)
            ty = 'array' if self.kind == 'sounding' else 'number'
            if w == odd:
                if how == 'none':
                    x, ty = None, 'none'
                elif how == 'text':
                    x, ty = ('abc' if self.kind == 'surface' else ['x'] * max(n, 1)), 'text'
                elif how == 'swap':
                    x, ty = (5.0, 'number') if self.kind == 'sounding' else ([1.0, 2.0], 'array')
                    m = 1 if self.kind == 'sounding' else 2
                elif self.kind == 'sounding':
                    m = max(0, n + rng.choice([-1, 1, 2]))
                    x = [1.0] * m
                if isinstance(x, list) and rng.random() < .3:
                    x = np.array(x)
            elif isinstance(x, list) and rng.random() < .4:
                x = rng.choice([np.array(x), tuple(x), np.array(x, dtype=np.float32)])
            if k in d:
                continue
            d[k] = x
            v.append({'n': codes(k), 'ty': ty, 'len': m})
        return {'ty': 'dict', 'v': v}, d

    def info(self):
        rng = self.rng
        c = rng.random()
        d = {'ty': 'none', 'num': 'absent', 'elev': 'absent', 'prio': 'absent', 'id': [], 'state': [], 'country': []}
        if c < .2:
            return d, None
        if c < .24:
            return {**d, 'ty': 'other'}, rng.choice([[1, 2], 'KMSN', 5])
        d['ty'], i = 'dict', {}
        for k, f, n in (('station_id', 'id', 8), ('state', 'state', 4), ('country', 'country', 4)):
            if rng.random() < .7:
                w = pick(rng, [1, 2, 3, 4] + ([5, 6, 7, 8] if n > 4 else []), [n + 1, n + 3], .03)
                i[k] = wide(rng, word(rng, w), .05)
                d[f] = codes(i[k])
        for k, f in (('station_number', 'num'), ('elevation', 'elev'), ('priority', 'prio')):
            if rng.random() < .6:
                d[f], i[k] = pick(rng, [('int', 320), ('int', 0)] + ([('float', 12.5)] if f != 'num' else [])
                                  + [('digits', '72518')], [('text', 'abc'), ('nothing', None), ('list', [5])], .06)
        return d, i

    def add_stn(self, date=None):
        rng, d, args = self.rng, {}, []
        for k, f in (('data', self.data), ('lat', lambda: num(rng, [40, 41.5, -12.25, 0])),
                     ('lon', lambda: num(rng, [-90, -90.125, 0, 179.5])), ('t', lambda: when(rng, self.kind))):
            d[k], v = f()
            args.append(v)
        if date is not None:
            d['t'], args[3] = {'ty': 'str', 's': date}, bytes(date).decode()
        d['info'], info = self.info()
        st, r = call(getattr(self.obj, 'add_sounding' if self.kind == 'sounding' else 'add_station'), *args,
                     station_info=info)
        self.ev.append({'ev': 'add', 'tag': f'add-{self.kind}', 'out': st, 'why': why(st, r), **d})


def why(st, r):
    return '' if st == 'ok' else repr(r)[:120]


def session(ctx, kind, nadd, dates=()):
    m = Maker(ctx)
    dates = list(dates)
    while m.obj is None or (kind != 'grid' and not m.names):
        m.ev = [] if len(m.ev) > 4 else m.ev
        m.new_grid() if kind == 'grid' else m.new_stn(kind)
    for i in range(nadd + len(dates)):
        (m.add_grid if kind == 'grid' else m.add_stn)(dates.pop() if dates and i >= nadd else None)
    return m.ev


# --- reading ------------------------------------------------------------------------------
def read_grids(ctx, d, f, be):
    from gempakio import GempakGrid
    rng = ctx.rng
    path = ctx.tmp('v.gem')
    path.write_bytes(gr.be_bytes(f) if be else gr.le_bytes(f))
    st, g = call(GempakGrid, path)
    ev = [{'ev': 'open', 'tag': 'open-grid', 'proj': d['proj'], 'out': st, 'why': why(st, g)}]
    if st == 'ok':
        lst = g.gdinfo()
        for sel in [lst, *[[x] for x in lst]]:
            kw = {} if sel is lst else {'parameter': sel[0].PARM}
            st, r = call(g.gdxarray, **kw)
            ev.append({'ev': 'read', 'tag': 'read-grid', 'kind': 'grid',
                       'types': [d['ptypes'][x.PARM] for x in sel], 'out': st, 'why': why(st, r)})
    path.unlink()
    return ev


def grid_file(rng):
    d = gr.grid_desc(rng, n=rng.randrange(1, 4), nx=3, ny=2, holes=0, simple=True)
    d['ptypes'] = {}
    keys = [bytes(k).decode() for k in d['ckeys']]
    for i, r in enumerate(d['recs']):
        name = f'PA{i}X'
        for k, v in (('GPM1', name), ('GPM2', '    '), ('GPM3', '    ')):
            d['cols'][r['c'] - 1]['w'][keys.index(k)] = gr.tw(v)
        ty = r['data'].get('ty', 0)
        if rng.random() < .3:
            ty = rng.choice([2, 5, 2, 5, 6, 7, -1, 99])
            r['data'] = gr.raw([ty, 8, 0, 6, 0, 0, 0x01020304, 0x05060708])
        elif r['data']['k'] == 'raw':
            ty = r['data']['w'][0]
        d['ptypes'][name] = ty
    proj = rng.choice(['CED', 'MER', 'LCC', 'STR', 'NPS', 'SPS', 'AED', 'ORT', 'LEA', 'GNO', 'MCD'])
    ang = {'CED': (0, 0, 0), 'MCD': (0, -100, 0), 'MER': (0, -100, 0), 'LCC': (30, -90, 60), 'STR': (90, -100, 0),
           'NPS': (90, -100, 0), 'SPS': (-90, -100, 0)}.get(proj, (45, -90, 0))
    ll, ur = ((-50.0, -110.0), (-20.0, -70.0)) if proj == 'SPS' else ((20.0, -110.0), (50.0, -70.0))
    d['proj'] = rng.choice(['XXX', 'ROB', 'ALB', 'CEE', 'ME', 'ced']) if rng.random() < .2 else proj
    d['fh'][0]['w'] = gr.navb(3, 2, d['proj'], ll, ur, ang)
    return d


def stn_file(rng, kind):
    from . import profile as pf
    if kind == 'unmerged':
        Ps = [pf.fix_pform(pf.gen(rng), False) for _ in range(2)]
        d = pf.sound_desc(rng, Ps, False)
    else:
        d = gr.sounding_desc(rng) if kind == 'merged' else gr.surface_desc(rng)
    for p in d['parts']:
        if rng.random() < (.05 if kind == 'unmerged' else .3):
            p['typ'] = rng.choice([2, 5, 2, 0, 6, -1] + ([3] if kind == 'merged' else []))
    return d


def read_stns(ctx, kind, d, f, be):
    from gempakio import GempakSounding, GempakSurface
    path = ctx.tmp('v.stn')
    path.write_bytes(gr.be_bytes(f) if be else gr.le_bytes(f))
    cls, get = (GempakSurface, 'sfjson') if kind == 'surface' else (GempakSounding, 'snxarray')
    ev = []
    st, g = call(cls, path)
    ts = sorted({d['parts'][x['p'] - 1]['typ'] for x in d['recs']})
    if st == 'ok':
        st, r = call(getattr(g, get))
        ev.append({'ev': 'read', 'tag': f'read-{kind}', 'kind': kind, 'types': ts, 'out': st, 'why': why(st, r)})
    path.unlink()
    return ev


def run(ctx):
    rng = ctx.rng
    f = ctx.tmp('dates.ndjson')
    ctx.model('MCValid', 'MCValid.cfg' if not ctx.thorough() else 'MCValid6.cfg', env={'OUT': str(f)}, workers=4)
    dates = [json.loads(x)['s'] for x in f.read_text().splitlines() if x.strip()]
    ses = []
    kinds = ['grid', 'sounding', 'surface']
    rng.shuffle(dates)
    per = 40
    for kind in kinds:
        for i in range(0, len(dates), per):
            ses.append(session(ctx, kind, 4, dates[i:i + per]))
    for i in range(ctx.n(240, 3000)):
        ses.append(session(ctx, kinds[i % 3], 12))
    plan = []
    for i in range(ctx.n(160, 1600)):
        kind = ['grid', 'merged', 'unmerged', 'surface'][i % 4]
        d = grid_file(rng) if kind == 'grid' else stn_file(rng, kind)
        plan.append((kind, d, gr.canon_ph(d)))
    for (kind, d, _), x in zip(plan, gr.build(ctx, [(d, ph) for _, d, ph in plan])):
        ses.append(read_grids(ctx, d, x, rng.random() < .5) if kind == 'grid'
                   else read_stns(ctx, kind, d, x, rng.random() < .5))
    ctx.judge('DMValidTrace', [s for s in ses if s], cfg='DMValidTrace.cfg')
    full = []
    for _ in range(ctx.n(12, 150)):
        full += gf.capacity_sessions(ctx, kinds)
    if full:
        ctx.judge(gf.JUDGE['module'], full, cfg=gf.JUDGE['cfg'])
