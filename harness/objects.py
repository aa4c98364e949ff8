"""G25: the form of listings and returned objects, judged against DMObjects.tla."""
from datetime import datetime
import json
import numbers

from . import gemread as gr, gemsess as gs, profile as pf
from .lib import call, codes, exact_i, toi

TEXT = ['TXTA', 'TXTB', 'TXTC', 'TXPB']


def dims(v):
    return [codes(d) for d in v.dims]


def coords(a):
    return sorted(({'n': codes(c), 'dims': dims(a[c])} for c in a.coords), key=lambda x: x['n'])


def grid_form(a, f):
    import pyproj
    cf = int(pyproj.CRS.from_wkt(a.attrs['crs_wkt']) == f.crs)
    return {'dims': dims(a), 'shape': [int(n) for n in a.shape], 'dtype': str(a.dtype),
            'coords': coords(a), 'gtype': str(a.attrs['grid_type']), 'cf': cf}


def snd_form(d, r):
    at = d.attrs
    vc = next((c for c in ('pres', 'hght') if c in d.dims), '?')
    sp = at.get('station_pressure', 0.0)
    return {'dims': [codes(n) for n in d.sizes], 'nt': int(d.sizes['time']), 'n': int(d.sizes[vc]),
            'coords': coords(d),
            'vars': [{'n': codes(n), 'dims': dims(d[n]), 'dtype': str(d[n].dtype)}
                     for n in d.data_vars],
            'attrs': sorted(str(k) for k in at),
            'stn': {'t': gs.p_time(d['time'].values), 'id': codes(at['station_id']),
                    'num': exact_i(at['station_number']), 'lat': toi(at['lat'], 1000),
                    'lon': toi(at['lon'], 1000), 'elev': exact_i(at['elevation']),
                    'st': codes(at['state']), 'co': codes(at['country'])},
            'spb': gr.rawbits_(float(sp)), 'spq': r.q('pres', float(sp)),
            'codes': sorted(({'n': codes(k), 'v': codes(v)}
                             for k, v in at.get('wmo_codes', {}).items()), key=lambda x: x['n'])}


def plain(v):
    """Type of a plain (JSON-like) value."""
    if isinstance(v, datetime):
        return 'datetime'
    try:
        json.dumps(v)
    except (TypeError, ValueError):
        return f'not plain: {type(v).__name__}'
    return ('str' if isinstance(v, str) else 'bool' if isinstance(v, bool) else
            'int' if isinstance(v, numbers.Integral) else
            'float' if isinstance(v, numbers.Real) else type(v).__name__)


def sfc_form(s):
    return {'keys': sorted(str(k) for k in s),
            'props': {str(k): plain(v) for k, v in s['properties'].items()},
            'vals': sorted(({'n': codes(k), 'ty': plain(v)} for k, v in s['values'].items()),
                           key=lambda x: x['n'])}


def look(ctx, kind, d, f, be, tag):
    r = gr.Reading(ctx, 'G25', tag)
    if not r.open(kind, d, f, be):
        return r.ev
    lst = {'grid': 'gdinfo', 'sounding': 'sninfo', 'surface': 'sfinfo'}[kind]
    st, x = call(lambda: [[str(n) for n in i._fields] for i in getattr(r.f, lst)()])
    r.ev.append({'ev': 'fields', 'tag': tag, 'out': st, 'res': x if st == 'ok' else []})
    get = {'grid': lambda: [grid_form(a, r.f) for a in r.f.gdxarray()],
           'sounding': lambda: [snd_form(a, r) for a in r.f.snxarray()],
           'surface': lambda: [sfc_form(a) for a in r.f.sfjson(include_special=True)]}[kind]
    st, x = call(get)
    r.ev.append({'ev': 'objects', 'tag': tag, 'out': st, 'res': x if st == 'ok' else [],
                 'why': '' if st == 'ok' else repr(x)[:200]})
    return r.ev


PROJ = [('CED', (0, 0, 0)), ('MCD', (0, -100, 0)), ('MER', (0, -100, 0)), ('LCC', (30, -90, 60)),
        ('STR', (90, -100, 0)), ('AED', (45, -90, 0)), ('LEA', (45, -90, 0)), ('ORT', (45, -90, 0)),
        ('GNO', (45, -90, 0)), ('NPS', (90, -100, 0)), ('SCC', (-30, -90, -60))]


def grid(rng):
    d = gr.grid_desc(rng)
    proj, ang = rng.choice(PROJ)
    ll, ur = ((-50.0, -110.0), (-20.0, -70.0)) if proj == 'SCC' else ((20.0, -110.0), (50.0, -70.0))
    d['fh'][0]['w'] = gr.navb(d['nx'], d['ny'], proj, ll, ur, ang)
    return d


def unmerged(rng):
    """Unmerged soundings, several carrying coded reports as text."""
    Ps = [P for P in (pf.fix_pform(pf.gen(rng), False) for _ in range(5)) if P['TTAA']][:3]
    if not Ps:
        return unmerged(rng)
    d = pf.sound_desc(rng, Ps, False)
    have = {x['c'] for x in d['recs']}
    names = rng.sample(TEXT, rng.randrange(0, 5))
    for n in names:
        d['parts'].append(gr.part(n, 1, 3, [('TEXT',)]))
        for c in range(1, len(Ps) + 1):
            if c in have and rng.random() < .7:
                s = rng.choice(['TTAA 57001 73110 99014 12813 22010', ' PPBB  55120 ', 'x', '',
                                'TTBB 5700/ 72365 00838 ' * rng.randrange(1, 9)])
                w = gr.tws(s, (len(s) + 3) // 4 + rng.randrange(3) or 1)
                d['recs'].append({'r': 1, 'c': c, 'p': len(d['parts']), 'hdr': [1200],
                                  'data': gr.raw(w, 1)})
    if names and rng.random() < .5:       # text parts among the others
        order = list(range(len(d['parts'])))
        rng.shuffle(order)
        d['parts'] = [d['parts'][i] for i in order]
        for x in d['recs']:
            x['p'] = order.index(x['p'] - 1) + 1
    return d


def run(ctx):
    rng = ctx.rng
    ctx.model('MCObjects', cfg='MCObjects.cfg')
    from .gemquery import report_desc
    makers = [('grid', grid), ('sounding', gr.sounding_desc), ('sounding', unmerged),
              ('surface', gr.surface_desc), ('surface', report_desc)]
    plan = []
    for i in range(ctx.n(200, 2000)):
        kind, mk = makers[i % len(makers)]
        d = mk(rng)
        ph = gr.wild_ph(rng, d, kind == 'grid') if i % 3 == 0 else gr.canon_ph(d)
        plan.append((kind, d, ph))
    files = gr.build(ctx, [(d, ph) for _, d, ph in plan])
    ses = [look(ctx, kind, d, f, be, f'{kind}-{"big" if be else "little"}')
           for (kind, d, _), f in zip(plan, files) for be in (False, True)]
    ctx.judge('DMObjectsTrace', ses, cfg='DMObjectsTrace.cfg')

