"""G11 G12 G15 G16: queries, nearest-time selection and report text, judged by DMReader."""
from datetime import datetime, timedelta

import numpy as np

from . import gemread as gr
from .gemread import Reading
from .lib import codes, dt5


def dattim(w):
    y = w // 10000
    return datetime(2000 + y if y < 69 else 1900 + y, w // 100 % 100, w % 100)


class Table:
    """Key values of a description, to draw filters from."""

    def __init__(self, rng, kind, d):
        self.rng, self.kind, self.d = rng, kind, d
        keys = [bytes(k).decode() for k in d['rkeys']], [bytes(k).decode() for k in d['ckeys']]
        self.cells = []
        for x in d['recs']:
            v = dict(zip(keys[0], d['rows'][x['r'] - 1]['w']))
            v.update(zip(keys[1], d['cols'][x['c'] - 1]['w']))
            self.cells.append(v)

    @staticmethod
    def text(*ws):
        import struct
        return b''.join(struct.pack('<i', w).strip() for w in ws).decode()

    def values(self, k):
        t, cs = self.text, self.cells
        if k == 'id':
            return [t(c['STID'], c.get('STD2', 0x20202020)) for c in cs]
        if k == 'num':
            return [c['STNM'] for c in cs]
        if k == 'st':
            return [t(c['STAT']) for c in cs]
        if k == 'co':
            return [t(c['COUN']) for c in cs]
        if k == 't':
            if self.kind == 'grid':
                return [gtime(c['GDT1'], c['GTM1']) for c in cs]
            return [dattim(c['DATE']) + timedelta(hours=c['TIME'] // 100, minutes=c['TIME'] % 100)
                    for c in cs]
        if k == 't2':
            return [gtime(c['GDT2'], c['GTM2']) for c in cs if c['GDT2']]
        if k == 'par':
            return [t(c['GPM1'], c['GPM2'], c['GPM3']) for c in cs]
        if k == 'vc':
            from .gemsess import VCS
            return [VCS[c['GVCD']] if c['GVCD'] in range(9) else t(c['GVCD']) for c in cs]
        if k == 'lev':
            return [c['GLV1'] for c in cs if c['GLV1'] >= 0]
        if k == 'lev2':
            return [c['GLV2'] for c in cs if c['GLV2'] >= 0]
        raise KeyError(k)

    ABSENT = {'id': ['NOPE', 'K'], 'num': [424242, 7], 'st': ['ZZ'], 'co': ['QQ'],
              't': [datetime(2031, 5, 6, 7, 8)], 't2': [datetime(2031, 5, 6, 7, 8)],
              'par': ['NONEXIST', 'TMP'], 'vc': ['FOOB'], 'lev': [12345], 'lev2': [12345]}
    ARG = {'id': 'station_id', 'num': 'station_number', 'st': 'state', 'co': 'country',
           'bbox': 'bbox', 't': 'date_time', 't2': 'date_time2', 'par': 'parameter',
           'vc': 'coordinate', 'lev': 'level', 'lev2': 'level2'}

    def filter(self, k, absent=.15, maxn=3, texts=0.):
        """(spec filter, argument name, argument value)"""
        rng = self.rng
        if k == 'bbox':
            la = sorted(rng.choice(self.cells)['SLAT'] + rng.choice([0, 0, -1, 500])
                        for _ in range(2))
            lo = sorted(rng.choice(self.cells)['SLON'] + rng.choice([0, 0, 1, -700])
                        for _ in range(2))
            if rng.random() < .3:
                la, lo = [-9000, 9000], [-18000, 18000]
            v = [lo[0], lo[1], la[0], la[1]]
            a = [q / 100 for q in v]
            return {'k': 'bbox', 'v': [10 * q for q in v]}, 'bbox', \
                tuple(a) if rng.random() < .5 else a
        if k in ('t', 't2') and rng.random() < .3 and (k == 't2' or self.values(k)):
            w = rng.choice(['first', 'last'])
            return {'k': w + ('2' if k == 't2' else ''), 'v': []}, self.ARG[k], \
                w if rng.random() < .5 else w.upper()
        pool = self.values(k)
        n = rng.choice([1, 1, 2, maxn])
        vals = [rng.choice(self.ABSENT[k]) if not pool or rng.random() < absent
                else rng.choice(pool) for _ in range(n)]
        arg = []
        for v in vals:
            if k in ('t', 't2'):
                arg.append(v if rng.random() < .5 else v.strftime('%Y%m%d%H%M'))
            elif isinstance(v, str):
                arg.append(v if rng.random() < .6 else v.lower())
            elif k in ('lev', 'lev2') and rng.random() < .3:
                arg.append(float(v))
            elif k == 'num' and rng.random() < texts:
                arg.append(str(v))
            elif rng.random() < .1:
                arg.append(np.int64(v))
            else:
                arg.append(v)
        if n == 1 and rng.random() < .6:
            a = arg[0]
        else:
            a = arg if rng.random() < .5 else tuple(arg) if rng.random() < .7 else np.array(
                arg, dtype=object if k in ('t', 't2') else None)
        sv = [dt5(v) if k in ('t', 't2') else codes(x) if isinstance(v, str) else int(v)
              for v, x in zip(vals, arg)]
        return {'k': k, 'v': sv}, self.ARG[k], a

    def combo(self, absent=.15):
        rng = self.rng
        ks = ['par', 't', 'vc', 'lev', 't2', 'lev2'] if self.kind == 'grid' \
            else ['id', 'num', 't', 'st', 'co', 'bbox']
        n = rng.choice([0, 1, 1, 1, 2, 2, 3, len(ks)])
        fs, kw = [], {}
        for k in rng.sample(ks, n):
            f, name, a = self.filter(k, absent)
            fs.append(f)
            kw[name] = a
        return fs, kw


def gtime(d, t):
    if d < 100000000:
        b = dattim(d)
    else:
        y = d // 10000 % 100
        b = datetime(2000 + y if y < 69 else 1900 + y, d // 100000000, d // 1000000 % 100,
                     d // 100 % 100, d % 100)
    h = t % 100000
    return b + timedelta(hours=h // 100, minutes=h % 100)


def small(rng, kind):
    """A description with repeated key values, so that filters select several records."""
    if kind == 'grid':
        d = gr.grid_desc(rng, rng.randrange(3, 12), 2, 2, 0, 1, 4, .1)
        ks = [bytes(k).decode() for k in d['ckeys']]
        for c in d['cols'][1:]:
            for k in ('GDT1', 'GDT2', 'GLV1', 'GLV2', 'GPM1', 'GVCD'):
                if rng.random() < .5:
                    b = d['cols'][0]
                    both = [k, 'GTM' + k[3]] if k.startswith('GDT') else \
                        ['GPM1', 'GPM2', 'GPM3'] if k == 'GPM1' else [k]
                    for q in both:
                        i = ks.index(q)
                        c['w'][i], c['tx'][i] = b['w'][i], b['tx'][i]
        return d
    if kind == 'sounding':
        return gr.sounding_desc(rng, rng.randrange(1, 4), rng.randrange(2, 7), None, None, 1, 3)
    return gr.surface_desc(rng, None, rng.randrange(1, 5), rng.randrange(2, 6))


def g11(ctx):
    rng = ctx.rng
    plan = []
    for i in range(ctx.n(240, 2400)):
        kind = list(gr.MAKE)[i % 3]
        d = report_desc(rng) if kind == 'surface' and rng.random() < .3 else small(rng, kind)
        plan.append((kind, d))
    files = gr.build(ctx, [(d, gr.wild_ph(rng, d, k == 'grid') if rng.random() < .5
                            else gr.canon_ph(d)) for k, d in plan])
    ss = []
    for (kind, d), f in zip(plan, files):
        r = Reading(ctx, tag=f'query-{kind}')
        if r.open(kind, d, f, rng.random() < .2):
            tab = Table(rng, kind, d)
            for _ in range(12):
                fs, kw = tab.combo()
                r.query(fs, kw, rng.choice([None, 0, 1]) if kind == 'surface' else None)
        ss.append(r.ev)
    return ss


def g12(ctx):
    rng = ctx.rng
    plan = []
    for i in range(ctx.n(150, 1500)):
        kind = list(gr.MAKE)[i % 3]
        d = report_desc(rng) if kind == 'surface' and rng.random() < .5 else small(rng, kind)
        plan.append((kind, d))
    files = gr.build(ctx, [(d, gr.canon_ph(d)) for k, d in plan])
    ss = []
    for (kind, d), f in zip(plan, files):
        r = Reading(ctx, tag=f'pure-{kind}')
        if r.open(kind, d, f):
            tab = Table(rng, kind, d)
            hist = []
            sp = (lambda: rng.choice([None, 0, 1])) if kind == 'surface' else (lambda: None)
            for _ in range(14):
                c = rng.random()
                if c < .2:
                    r.list(mutate=True)
                elif c < .4:
                    r.query((), {}, sp(), mutate=True)
                elif hist and c < .65:
                    fs, kw, s = rng.choice(hist)
                    r.query(fs, kw, s, mutate=True)
                elif kind == 'surface' and c < .75:
                    nearest_one(rng, r, tab)
                else:
                    fs, kw = tab.combo(.05)
                    s = sp()
                    hist.append((fs, kw, s))
                    r.query(fs, kw, s, mutate=rng.random() < .5)
            r.list()
            r.query((), {}, sp())
        ss.append(r.ev)
    return ss


def nearest_one(rng, r, tab, bad=.05):
    t0 = rng.choice(tab.values('t'))
    t = t0 + timedelta(minutes=rng.choice([0, 1, -1, 29, 31, -61, 720, 1441, -5000,
                                           rng.randrange(-100000, 100000)]))
    arg = t if rng.random() < .5 else t.strftime('%Y%m%d%H%M')
    ks = ['id', 'num', 'st', 'co', 'bbox']
    n = 1 if rng.random() > bad else rng.choice([0, 2, 3])
    fs, kw = [], {}
    for k in rng.sample(ks, n):
        f, name, a = tab.filter(k, 0 if k in ('id', 'num') else .2, texts=.2)
        if k in ('id', 'num') and isinstance(a, (list, tuple, np.ndarray)):   # each station once
            u = list({str(x).upper(): x.upper() if isinstance(x, str) else x for x in a}.values())
            a = np.array(u) if isinstance(a, np.ndarray) else type(a)(u)
            f['v'] = [codes(x) if k == 'id' else int(x) for x in u]
        fs.append(f)
        kw[name] = a
    r.nearest(t, arg, fs, kw, rng.choice([None, 0, 1]))


def g16(ctx):
    rng = ctx.rng
    plan = []
    for i in range(ctx.n(200, 2000)):
        d = report_desc(rng) if i % 2 else gr.surface_desc(
            rng, rng.choice(['standard', 'ship', 'climate']), rng.randrange(1, 6), rng.randrange(1, 5))
        # moving stations: several columns of a ship file share an identifier
        plan.append(d)
        keys = [bytes(k).decode() for k in d['ckeys']]
        if 'DATE' in keys and 'STID' in keys:
            for c in d['cols'][1:]:
                if rng.random() < .5:
                    for k in {'STID', 'STD2', 'STNM'} & set(keys):
                        c['w'][keys.index(k)] = d['cols'][0]['w'][keys.index(k)]
    files = gr.build(ctx, [(d, gr.canon_ph(d)) for d in plan])
    ss = []
    for d, f in zip(plan, files):
        r = Reading(ctx, tag='nearest')
        if r.open('surface', d, f):
            tab = Table(rng, 'surface', d)
            for _ in range(12):
                nearest_one(rng, r, tab)
        ss.append(r.ev)
    return ss


# --- report text -----------------------------------------------------------------------
BODY = ['AUTO 18004KT 10SM CLR 12/05 A2992', '27015G25KT 3SM -SN OVC012 M03/M05 A3001 RMK AO2',
        '00000KT P6SM FEW250', 'COR 09012KT 1/2SM FG VV002', 'RMK SLP123 T00120034', '']


def one_report(rng, sid, t, spread):
    c = rng.random()
    dt = t + timedelta(minutes=rng.choice([0, 5, -17, 34, 60, -120, 1440] if spread else [0, 3]))
    if c < .7:
        g = dt.strftime('%d%H%MZ')
    elif c < .8:
        g = rng.choice(['320000Z', '002400Z', '019900Z', '312460Z', '000000Z', '300000Z', '312359Z',
                        '290600Z'])
    elif c < .9:
        g = rng.choice(['12345Z', 'AUTO', '011200', '1234567Z'])
    else:
        g = dt.strftime('%d%H%MZ') + rng.choice(['', ' 010101Z'])
    pre = rng.random()
    head = sid if pre < .85 else f'METAR {sid}' if pre < .95 else sid[:3]
    return f'{head} {g} {rng.choice(BODY)}'.strip()


def report_desc(rng, style='standard'):
    """A standard surface file with TEXT and/or SPCL parts."""
    ns, nt = rng.randrange(1, 4), rng.randrange(1, 4)
    times = []
    while len(times) < nt:
        t = datetime(rng.choice([1999, 2000, 2023, 2024]), rng.randrange(1, 13),
                     rng.choice([1, 1, 2, 15, 27, 28]), rng.choice([0, 1, 12, 23]),
                     rng.choice([0, 0, 20]))
        if rng.random() < .4:
            t = (t.replace(day=1) - timedelta(days=1)).replace(hour=rng.choice([0, 12, 23]))
        if t not in times:
            times.append(t)
    if nt == 1 and rng.random() < .7:
        times.append(times[0] + timedelta(hours=1))
    stns = [gr.r_station(rng, i) for i in range(ns)]
    for i, s in enumerate(stns):
        s['id'] = rng.choice(['KMSN', 'KORD', 'K1Q2', 'CYYZ', 'PHNL']) if ns == 1 \
            else ['KMSN', 'KDSM', 'CYYZ'][i]
    keys = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI']
    pk = rng.random() < .5
    names = rng.sample(['TMPC', 'DWPC', 'PMSL', 'SKNT'], rng.randrange(1, 4))
    ps = gr.r_pack_params(rng, names) if pk else [(n,) for n in names]
    plist = [('SFDT', ps)] if rng.random() < .85 else []
    tp = rng.choice([['TEXT'], ['SPCL'], ['TEXT', 'SPCL'], ['TEXT', 'SPCL'], ['SPCL', 'TEXT']])
    for n in tp:
        plist.insert(rng.choice([len(plist), len(plist), 0]), (n, n))
    parts = [gr.part(n, 1, 3, [(n,)]) if isinstance(p, str) else
             gr.part(n, 1, 4 if pk else 1, p) for n, p in plist]
    recs = []
    for r in range(len(times)):
        for c in range(ns):
            if rng.random() < .15 and (r or c):
                continue
            got = False
            for p, (n, q) in enumerate(plist):
                if rng.random() < .25 and (got or p < len(plist) - 1):
                    continue
                got = True
                if isinstance(q, str):
                    m = rng.choice([1, 1, 1, 2, 3])
                    if rng.random() < .08:
                        s = '   '
                    else:
                        sep = rng.choice([' ', '  ', '\n', ' \r\n', '='])
                        s = sep.join(one_report(rng, stns[c]['id'], times[r], n == 'SPCL')
                                     for _ in range(m))
                    nw = (len(s) + 3) // 4 + rng.randrange(2)
                    data = gr.raw(gr.tws(s, nw), 1)
                elif pk:
                    data = {'k': 'pack', 'lv': [[gr.pack_field(rng, z) for z in q]],
                            'bits': [z[3] for z in q]}
                else:
                    data = gr.raw([gr.r_fbits(rng) for _ in q])
                recs.append({'r': r + 1, 'c': c + 1, 'p': p + 1, 'hdr': [1200], 'data': data})
    return {'ftype': 1, 'src': 2, 'fh': [], 'rkeys': [codes('DATE'), codes('TIME')],
            'ckeys': [codes(k) for k in keys],
            'rows': [gr.slot([gr.ymd(t), gr.hm(t)], [0, 0]) for t in times],
            'cols': [gr.slot(gr.stn_words(keys, s), [gr.STN_TX.get(k, 0) for k in keys])
                     for s in stns], 'parts': parts, 'recs': recs}


def g15(ctx):
    rng = ctx.rng
    plan = [report_desc(rng) for _ in range(ctx.n(330, 3300))]
    files = gr.build(ctx, [(d, gr.canon_ph(d)) for d in plan])
    ss = []
    for d, f in zip(plan, files):
        r = Reading(ctx, tag='reports')
        if r.open('surface', d, f, rng.random() < .2):
            r.query((), {}, 1)
            r.query((), {}, 0)
            r.query((), {}, None)
        ss.append(r.ev)
    return ss


def run(ctx):
    if ctx.pid in ('G11', 'G12'):
        ctx.model('MCQuery')
    if ctx.pid in ('G15', 'G16'):
        ctx.model('MCReports')
    ss = {'G11': g11, 'G12': g12, 'G15': g15, 'G16': g16}[ctx.pid](ctx)
    ctx.judge(gr.JUDGE['module'], ss, cfg=gr.JUDGE['cfg'])
