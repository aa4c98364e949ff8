"""G06 G07 G08 G10 G11 G12 G15 G16 G20: what the readers return for DM files built from the
specification (DMLayout/DMEval) and judged against their meaning (DMReader)."""
from datetime import datetime, timedelta
import json
import struct

import numpy as np

from . import gemsess as gs
from .lib import bits, call, codes, dt5, exact_i, MISSBITS, rawbits as rawbits_, toi

JUDGE = dict(module='DMReadTrace', cfg='DMTrace.cfg')
MISSF = -971228160
MISSI = -9999
MASK = 2143289344
AREAS = ['dm', 'rk', 'ck', 'fh', 'rh', 'ch', 'pt', 'db']


def tw(s):
    return struct.unpack('<i', s.encode('latin-1')[:4].ljust(4))[0]


def tws(s, n):
    b = s.encode('latin-1')[:4 * n].ljust(4 * n)
    return list(struct.unpack(f'<{n}i', b))


def fw(x):
    return struct.unpack('<i', struct.pack('<f', x))[0]


def raw(w, tx=0):
    return {'k': 'raw', 'w': list(w), 'tx': [tx] * len(w)}


def rawbits(v):
    """As lib.rawbits, with masked (NaN) values told from the usual missing value."""
    b = rawbits_(v)
    return MASK if b == MISSBITS and v != v else b


def remiss(rng, d, p=.3):
    """Another missing value declared in the label (the usual one is then a value like others)."""
    if rng.random() < p:
        d['missf'] = rng.choice([fw(-999.75), fw(1e20), fw(-32767.5)])
        for r in d['recs']:
            x = r['data']
            if x['k'] == 'raw':
                x['w'] = [d['missf'] if w == MISSF and not t and rng.random() < .8 else w
                          for w, t in zip(x['w'], x['tx'])]
    # valid values beside the missing value
    for r in d['recs'] if rng.random() < .5 else ():
        x = r['data']
        if x['k'] == 'raw':
            x['w'] = [w + rng.randrange(-99, 100) if w == d.get('missf', MISSF) and not t and rng.random() < .15
                      else w for w, t in zip(x['w'], x['tx'])]
    return d


# --- file descriptions ------------------------------------------------------------
def slot(w, tx):
    return {'used': 1, 'w': w, 'tx': tx}


def part(name, hdr, typ, params):
    return {'name': codes(name), 'hdr': hdr, 'typ': typ,
            'params': [{'name': codes(p[0]), 'scale': p[1] if len(p) > 1 else 0,
                        'offset': p[2] if len(p) > 2 else 0,
                        'bits': p[3] if len(p) > 3 else 0} for p in params]}


STN_TX = {'STID': 1, 'STAT': 1, 'COUN': 1, 'STD2': 1}


def stn_words(keys, s):
    v = {'STID': tw(s['id'][:4]), 'STD2': tw(s['id'][4:8]), 'STNM': s['num'], 'SLAT': s['lat'],
         'SLON': s['lon'], 'SELV': s['elev'], 'STAT': tw(s['st']), 'COUN': tw(s['co']),
         'SPRI': s['prio'], 'DATE': s.get('date', 0), 'TIME': s.get('time', 0)}
    return [v[k] for k in keys]


def spare_keys(rng, keys):
    """Files need not have the second half of the identifier, or priorities."""
    for k in ('STD2', 'SPRI'):
        if rng.random() < .1:
            keys.remove(k)


def ymd(d):
    return (d.year % 100) * 10000 + d.month * 100 + d.day


def hm(d):
    return d.hour * 100 + d.minute


def r_station(rng, i):
    return {'id': rng.choice(['K{:03d}', 'Z{:03d}LAND', 'A{:02d}', 'X{:01d}', 'Q{:03d}B']).format(i),
            'num': rng.choice([0, 725000, -5, 99]) if rng.random() < .2 else 1000 + i,
            'lat': rng.randrange(-9000, 9001), 'lon': rng.randrange(-18000, 18001),
            'elev': rng.choice([0, -9999, 8848, -50, rng.randrange(3000)]),
            'st': rng.choice(['WI', 'IL', 'OK', '', '--', 'QUE', 'ONTA']),
            'co': rng.choice(['US', 'CA', 'MX', '']), 'prio': rng.randrange(10)}


def r_times(rng, n):
    out = set()
    while len(out) < n:
        out.add(gs.r_time(rng))
    out = list(out)
    if rng.random() < .5:
        out.sort()
    return out


def r_pack_params(rng, names):
    ps = []
    for n in names:
        nb = rng.choice([1, 2, 3, 5, 7, 8, 9, 11, 13, 16, 17, 20, 24, 29, 30, 31,
                         rng.randrange(1, 32)])
        off = rng.choice([0, -1, 5, -100, 1000])
        if nb > 26:
            off = -(2 ** (nb - 1))
        ps.append((n, rng.choice([0, -1, -2, 1, -3, 2]), off, nb))
    return ps


def pack_field(rng, p, uniq=None):
    nb = p[3]
    top = 2 ** nb - 1
    if nb > 26:
        c = 2 ** (nb - 1) + rng.randrange(-2 ** 25, 2 ** 25)
        return top if rng.random() < .1 else c
    c = rng.random()
    if c < .12:
        return top
    if c < .3:
        return rng.choice([0, max(0, top - 1), top >> 1, (top >> 1) + 1, 1]) % (top + 1)
    return rng.randrange(top + 1)


def r_fbits(rng, miss=.12):
    if rng.random() < miss:
        return MISSF
    return bits(gs.r_float(rng))


SNP = ['PRES', 'HGHT', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'OMEG', 'CFRL', 'TMPC', 'DWPC', 'SKNT']
SFP = ['PMSL', 'ALTI', 'TMPC', 'DWPC', 'SKNT', 'DRCT', 'GUST', 'WNUM', 'CHC1', 'P01I', 'PRES']


def sounding_desc(rng, nt=None, ns=None, keep=None, packed=None, nparts=None, maxlev=8):
    nt, ns = nt or rng.randrange(1, 4), ns or rng.randrange(1, 5)
    times = r_times(rng, nt)
    stns = [r_station(rng, i) for i in range(ns)]
    ckeys = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI']
    rkeys = ['DATE', 'TIME']
    spare_keys(rng, ckeys)
    if rng.random() < .3:
        rng.shuffle(ckeys)
        rkeys = rkeys[::-1]
    vert = rng.choice(['PRES', 'PRES', 'HGHT'])
    names = [n for n in SNP if n not in (vert,)]
    if vert == 'HGHT':
        names.remove('PRES')
    rng.shuffle(names)
    names = names[:rng.randrange(1, 6)]
    nparts = nparts or rng.choice([1, 1, 2, 3])
    groups = [[] for _ in range(nparts)]
    groups[0].append(vert)
    for n in names:
        groups[rng.randrange(nparts)].append(n)
    rng.shuffle(groups[0])
    groups = [g for g in groups if g]
    if rng.random() < .5:      # the levels need not be in the first part
        rng.shuffle(groups)
    parts, pars = [], []
    for i, g in enumerate(groups):
        pk = rng.random() < .5 if packed is None else packed
        if pk:
            ps = [(n, rng.choice([0, -1]), rng.choice([0, 7]), 14) if n == vert else q
                  for n, q in zip(g, r_pack_params(rng, g))]
        else:
            ps = [(n,) for n in g]
        hdr = rng.choice([0, 1, 1, 2])
        parts.append(part('SNDT' if i == 0 else f'SND{i + 1}', hdr, 4 if pk else 1, ps))
        pars.append(ps)
    recs = []
    for r in range(nt):
        for c in range(ns):
            if rng.random() > (keep or rng.choice([.5, .8, 1])) and (r or c):
                continue
            n = rng.randrange(1, maxlev + 1)
            order = rng.sample(range(1, 1100), n)
            if rng.random() < .5:
                order.sort(reverse=True)
            for p, ps in enumerate(pars):
                if vert not in groups[p] and rng.random() < .3:
                    continue
                if len(ps[0]) > 1:
                    lv = [[order[i] if q[0] == vert else pack_field(rng, q) for q in ps]
                          for i in range(n)]
                    data = {'k': 'pack', 'lv': lv, 'bits': [q[3] for q in ps]}
                else:
                    data = raw([fw(order[i]) if q[0] == vert else r_fbits(rng)
                                for i in range(n) for q in ps])
                recs.append({'r': r + 1, 'c': c + 1, 'p': p + 1,
                             'hdr': [hm(times[r])] * parts[p]['hdr'], 'data': data})
    return remiss(rng, {'ftype': 2, 'src': 4, 'fh': [], 'rkeys': [codes(k) for k in rkeys],
            'ckeys': [codes(k) for k in ckeys],
            'rows': [slot([ymd(t) if k == 'DATE' else hm(t) for k in rkeys], [0, 0]) for t in times],
            'cols': [slot(stn_words(ckeys, s), [STN_TX.get(k, 0) for k in ckeys]) for s in stns],
            'parts': parts, 'recs': recs})


UNM = [('TTAA', ['PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT']), ('TTBB', ['PRES', 'TEMP', 'DWPT']),
       ('PPBB', ['HGHT', 'DRCT', 'SPED']), ('PPAA', ['PRES', 'DRCT', 'SPED'])]


def surface_desc(rng, style=None, nt=None, ns=None, packed=None, text=None):
    style = style or rng.choice(['standard', 'standard', 'ship', 'climate'])
    stn_keys = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI']
    time_keys = ['DATE', 'TIME']
    spare_keys(rng, stn_keys)
    if rng.random() < .3:
        rng.shuffle(stn_keys)
    nt, ns = nt or rng.randrange(1, 4), ns or rng.randrange(1, 5)
    if style == 'standard' and nt == 1 and rng.random() < .5:
        nt = 2
    times = r_times(rng, nt)
    stns = [r_station(rng, i) for i in range(ns)]
    for s in stns:
        if rng.random() < .1:
            s['lat'] = s['lon'] = MISSI
    stx = [STN_TX.get(k, 0) for k in stn_keys]
    tslots = [slot([ymd(t) if k == 'DATE' else hm(t) for k in time_keys], [0, 0]) for t in times]
    sslots = [slot(stn_words(stn_keys, s), stx) for s in stns]
    if style == 'standard':
        rkeys, ckeys, rows, cols = time_keys, stn_keys, tslots, sslots
    elif style == 'climate':
        rkeys, ckeys, rows, cols = stn_keys, time_keys, sslots, tslots
    else:
        rkeys = ['XX']
        ckeys = [*stn_keys, *time_keys]
        if rng.random() < .5:
            rng.shuffle(ckeys)
        rows = [slot([rng.randrange(100)], [0])]
        cols = []
        for s in stns:
            t = gs.r_time(rng)
            cols.append(slot(stn_words(ckeys, {**s, 'date': ymd(t), 'time': hm(t)}),
                             [STN_TX.get(k, 0) for k in ckeys]))
    if style == 'climate' and len(rows) == 1:
        pass
    names = rng.sample(SFP, rng.randrange(1, 8))
    nparts = rng.choice([1, 1, 2, 3])
    groups = [[] for _ in range(nparts)]
    for n in names:
        groups[rng.randrange(nparts)].append(n)
    groups = [g for g in groups if g]
    if rng.random() < .5:      # the levels need not be in the first part
        rng.shuffle(groups)
    parts, pars = [], []
    for i, g in enumerate(groups):
        pk = rng.random() < .5 if packed is None else packed
        ps = r_pack_params(rng, g) if pk else [(n,) for n in g]
        parts.append(part(f'SFD{i}', rng.choice([1, 1, 2, 0]), 4 if pk else 1, ps))
        pars.append(ps)
    tparts = text if text is not None else \
        rng.choice([[], [], ['CHRA'], ['CHRA', 'CHRB'], ['TEXT'] if style != 'standard' else []])
    for n in tparts:
        at = rng.randrange(len(parts) + 1) if rng.random() < .4 else len(parts)
        parts.insert(at, part(n, 1, 3, [(n,)]))
        pars.insert(at, n)
    recs = []
    keep = rng.choice([.4, .7, 1])
    for r in range(len(rows)):
        for c in range(len(cols)):
            if rng.random() > keep and (r or c):
                continue
            got = False
            for p, ps in enumerate(pars):
                last = p == len(pars) - 1
                if rng.random() < .3 and (got or not last):
                    continue
                got = True
                if isinstance(ps, str):
                    s = rng.choice(['SOME TEXT', 'x', 'A longer remark with  spaces ', ' lead', ''])
                    w = tws(s, rng.randrange((len(s) + 3) // 4, (len(s) + 3) // 4 + 3) or 1)
                    data = raw(w, 1)
                elif len(ps[0]) > 1:
                    data = {'k': 'pack', 'lv': [[pack_field(rng, q) for q in ps]],
                            'bits': [q[3] for q in ps]}
                else:
                    data = raw([r_fbits(rng) for q in ps])
                recs.append({'r': r + 1, 'c': c + 1, 'p': p + 1, 'hdr': [1200] * parts[p]['hdr'],
                             'data': data})
    return remiss(rng, {'ftype': 1, 'src': 2, 'fh': [], 'rkeys': [codes(k) for k in rkeys],
            'ckeys': [codes(k) for k in ckeys], 'rows': rows, 'cols': cols, 'parts': parts,
            'recs': recs})


def navb(nx, ny, proj='CED', ll=(10.0, -100.0), ur=(40.0, -60.0), ang=(0.0, 0.0, 0.0)):
    w = [fw(2.0), tw(proj + ' ')] + [fw(float(q)) for q in (1, 1, nx, ny, *ll, *ur, *ang)]
    return w + [0] * (256 - len(w))


def anlb(rng):
    t = rng.choice([0, 1, 2])
    return [fw(float(t))] + [fw(rng.uniform(-5, 5)) if t else 0 for _ in range(17)] + [0] * 110


def exact24(rng, k):
    return rng.randrange(-2 ** k, 2 ** k)


def grid_data(rng, nx, ny, e, ptype=None, nb=None):
    """Abstract grid record: values exact in units of 2^e (|v| < 2^24 or relative)."""
    n = nx * ny
    ptype = rng.choice([0, 1, 1, 3, 4]) if ptype is None else ptype
    if ptype == 0:
        return raw([0] + [r_fbits(rng) for _ in range(n)])
    nb = nb or rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 16, 17, 20, 23, 24, 25, 28, 30, 31,
                           rng.randrange(1, 32)])
    miss = rng.choice([0, 0, 1, 1, -9999, MISSF])
    top = 2 ** nb - 1
    es = e + rng.choice([0, 0, 1, 2, 3])
    if nb > 20:
        es = e
    mult = rng.choice([1, 1, 3, 5]) if nb <= 16 else 1
    if ptype in (1, 4):
        if nb <= 20:
            cs = [rng.choice([0, top, max(0, top - 1), top // 2]) if rng.random() < .25
                  else rng.randrange(top + 1) for _ in range(n)]
        else:
            lim = min(top, 2 ** 30)
            cs = [top if rng.random() < .15 and (miss or top < 2 ** 30) else
                  rng.randrange(lim) if rng.random() < .7 else rng.randrange(2 ** 20)
                  for _ in range(n)]
        ref = rng.choice([0, exact24(rng, 12), exact24(rng, 20), 1])
        return {'k': 'grid', 'ty': ptype, 'nb': nb, 'miss': miss, 'n': n, 'nx': nx,
                'ref': bits(ref * 2.0 ** e), 'scale': bits(mult * 2.0 ** es), 'dmin': 0,
                'codes': cs}
    # differences: codes around a centre so that sums stay exact
    if nb <= 10:
        centre = rng.choice([0, top // 2])
        cs = [top if rng.random() < .15 else rng.randrange(top + 1) for _ in range(n)]
    else:
        centre = rng.choice([2 ** (nb - 1), top // 3, 0 if nb < 16 else 2 ** (nb - 1)])
        centre &= ~0x7f if nb > 20 else -1      # keep the centre exact in float32
        cs = [top if rng.random() < .15 and (miss or nb < 16) else
              max(0, min(top, centre + rng.randrange(-200, 200))) for _ in range(n)]
        if not miss and nb >= 16:
            cs = [min(c, top - 1) for c in cs]
    if rng.random() < .25:     # rows that start with, or consist of, missing values
        for j in range(ny):
            k = rng.choice([0, 1, nx])
            if miss:
                cs[j * nx:j * nx + k] = [top] * k
    es = e
    mult = 1 if nb > 12 else mult
    ref = exact24(rng, 14)
    return {'k': 'grid', 'ty': 3, 'nb': nb, 'miss': miss, 'n': n, 'nx': nx,
            'ref': bits(ref * 2.0 ** e), 'scale': bits(mult * 2.0 ** es),
            'dmin': bits(-float(centre * mult) * 2.0 ** e), 'codes': cs}


GKEYS = ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']


def r_gkey(rng, i, simple=False):
    def gt():
        t = gs.r_time(rng)
        ty = rng.choice([0, 0, 1, 2, 3])
        if ty == 0:
            return [ymd(t), hm(t)] if ymd(t) else gt()
        fh, fm = rng.choice([(0, 0), (6, 0), (12, 30), (120, 0), (999, 59), (3, 15)])
        if t.year in (1968, 2068) and fh > 24:
            fh = 1
        if simple or rng.random() < .85:
            d = (t.month * 10000 + t.day * 100 + t.year % 100) * 10000 + hm(t)
        else:
            d = ymd(t) or 240101
        return [d, ty * 100000 + fh * 100 + fm]
    t1 = gt()
    t2 = gt() if rng.random() < .35 else [0, rng.choice([0, 0, -1, -9999])]
    l1 = rng.choice([0, 500, 850, 1000, -1, 10 * i])
    l2 = rng.choice([-1, -1, -9999, 0, 700])
    vc = rng.choice([*range(9), tw('ESTM'), tw('HYBL'), tw('POTV')]) if not simple \
        else rng.choice([1, 3, 2, 0])
    name = rng.choice(['TMPK', 'PRES', 'HGHT', 'THTA', 'UREL', 'RELHUMID', 'TMPKABCDEFGH', 'X'])
    return {'GDT1': t1[0], 'GTM1': t1[1], 'GDT2': t2[0], 'GTM2': t2[1], 'GLV1': l1, 'GLV2': l2,
            'GVCD': vc, 'GPM1': tw(name[:4]), 'GPM2': tw(name[4:8]), 'GPM3': tw(name[8:12])}


def grid_desc(rng, n=None, nx=None, ny=None, e=0, ptype=None, nb=None, holes=0.2, simple=False):
    if nx is None:
        nx, ny = rng.choice([(2, 2), (3, 2), (4, 3), (2, 7), (9, 2), (5, 5)])
    n = n or rng.randrange(1, 6)
    keys = list(GKEYS)
    if rng.random() < .3:
        rng.shuffle(keys)
    cols = []
    for i in range(n):
        k = r_gkey(rng, i, simple)
        tx = [1 if q.startswith('GPM') or (q == 'GVCD' and k[q] > 8) else 0 for q in keys]
        cols.append(slot([k[q] for q in keys], tx))
    recs = [{'r': 1, 'c': i + 1, 'p': 1, 'hdr': [nx, ny],
             'data': grid_data(rng, nx, ny, e, ptype, nb)}
            for i in range(n) if i == 0 or rng.random() >= holes]
    nav = navb(nx, ny)
    anl = anlb(rng)
    return remiss(rng, {'ftype': 3, 'src': 6,
            'fh': [{'name': codes('NAVB'), 'typ': 1, 'w': nav,
                    'tx': [1 if i == 1 else 0 for i in range(256)]},
                   {'name': codes('ANLB'), 'typ': 1, 'w': anl, 'tx': [0] * 128}],
            'rkeys': [codes('GRID')], 'ckeys': [codes(k) for k in keys],
            'rows': [slot([1], [0])], 'cols': cols, 'parts': [part('GRID', 2, 5, [('GRID',)])],
            'recs': recs, 'nx': nx, 'ny': ny, 'e': e})


# --- layouts -------------------------------------------------------------------------
def canon_ph(d):
    return {'order': AREAS, 'gap': {a: 0 for a in AREAS},
            'align': {a: 128 if a in ('dm', 'rh', 'pt', 'db') else 1 for a in AREAS},
            'ralign': 128, 'rgap': 0, 'fill': 0, 'pad': 1, 'junk': 0,
            'rows': list(range(1, len(d['rows']) + 1)), 'cols': list(range(1, len(d['cols']) + 1)),
            'rperm': list(range(1, len(d['recs']) + 1))}


def remap(rng, pat, n):
    """Zeros of a two-slot pattern inserted at corresponding places of n slots."""
    out = list(range(1, n + 1))
    seen = 0
    ins = []
    for v in pat:
        if v:
            seen += 1
        else:
            ins.append(0 if seen == 0 else n if seen == 2 else rng.randrange(1, n + 1))
    for i in sorted(ins, reverse=True):
        out.insert(i, 0)
    return out


def concrete_ph(rng, d, x, grid=False):
    """A layout enumerated by TLC from MCLayout, fitted to description d."""
    ph = {**x, 'align': {a: 128 if v > 1 else 1 for a, v in x['align'].items()},
          'ralign': 128 if x['ralign'] > 1 else 1}
    ph['rows'] = list(range(1, len(d['rows']) + 1)) if grid else remap(rng, x['rows'], len(d['rows']))
    ph['cols'] = remap(rng, x['cols'], len(d['cols']))
    ph['rperm'] = list(range(1, len(d['recs']) + 1))
    if x['rperm'] != [1, 2, 3, 4, 5]:
        rng.shuffle(ph['rperm'])
    return ph


def wild_ph(rng, d, grid=False):
    ph = canon_ph(d)
    ph['order'] = rng.sample(AREAS, 8)
    ph['gap'] = {a: rng.choice([0, 0, 1, 5, 130]) for a in AREAS}
    ph['align'] = {a: rng.choice([1, 1, 128]) for a in AREAS}
    ph.update(ralign=rng.choice([1, 128]), rgap=rng.choice([0, 1, 7]), pad=rng.choice([0, 1]),
              fill=rng.choice([0, 9999, -9999, -1, 1]), junk=rng.choice([0, 1]))
    for k in ('cols',) if grid else ('rows', 'cols'):
        for _ in range(rng.choice([0, 1, 3])):
            ph[k].insert(rng.randrange(len(ph[k]) + 1), 0)
    rng.shuffle(ph['rperm'])
    return ph


def build(ctx, items, chunks=8):
    """items: (desc, layout) -> files as {'w', 'tx'}."""
    ins = [{'d': {k: v for k, v in d.items() if k not in ('nx', 'ny', 'e')}, 'ph': ph}
           for d, ph in items]
    return ctx.tla_eval('DMEval', ins, chunks=chunks)


def le_bytes(f):
    return struct.pack(f'<{len(f["w"])}i', *f['w'])


def be_bytes(f):
    b = bytearray()
    tx = f['tx'] + [0] * (len(f['w']) - len(f['tx']))
    for w, t in zip(f['w'], tx):
        b += struct.pack('<i' if t else '>i', w)
    return bytes(b)


# --- reading sessions -------------------------------------------------------------------
class Reading:
    def __init__(self, ctx, pid=None, tag=''):
        self.ctx, self.pid, self.tag, self.ev = ctx, pid or ctx.pid, tag, []
        self.round, self.raw = False, None

    def open(self, kind, d, f, be=False, opaque=0, again=0):
        from gempakio import GempakGrid, GempakSounding, GempakSurface
        cls = {'grid': GempakGrid, 'sounding': GempakSounding, 'surface': GempakSurface}[kind]
        p = self.ctx.tmp('f.gem')
        p.write_bytes(self.raw or (be_bytes(f) if be else le_bytes(f)))
        st, self.f = call(cls, p if be else str(p))
        p.unlink(missing_ok=True)
        self.kind, self.opaque = kind, opaque
        self.e = d.get('e', 0)
        self.scale = {bytes(q['name']).decode().lower(): q['scale']
                      for part_ in d['parts'] for q in part_['params']}
        self.ev.append({'ev': 'open', 'pid': self.pid, 'tag': self.tag, 'kind': kind, 'w': f['w'],
                        'be': int(be), 'opaque': opaque, 'again': again, 'nx': d.get('nx', 0),
                        'ny': d.get('ny', 0), 'e': self.e, 'out': st, 'same': 1})
        return st == 'ok'

    def list(self, mutate=False):
        fn = {'grid': 'gdinfo', 'sounding': 'sninfo', 'surface': 'sfinfo'}[self.kind]
        st, r = call(getattr(self.f, fn))
        res = []
        if st == 'ok':
            st2, res = call(lambda: [self.p_info(x) for x in r])
            if st2 != 'ok':
                st, res = 'projection', []
            if mutate:
                r.clear()
        self.ev.append({'ev': 'list', 'pid': self.pid, 'out': st, 'res': res, 'same': 1})
        return res

    def p_info(self, x):
        return gs.p_grid_info(x) if self.kind == 'grid' else gs.p_station_info(x, False)

    def query(self, filt=(), kw=None, special=None, mutate=False):
        kw = dict(kw or {})
        fn = {'grid': 'gdxarray', 'sounding': 'snxarray', 'surface': 'sfjson'}[self.kind]
        if special is not None:
            kw['include_special'] = bool(special)
        frozen = gs.freeze(kw)
        st, r = call(getattr(self.f, fn), **kw)
        self.finish('query', st, r, filt, special, frozen == gs.freeze(kw), mutate)

    def nearest(self, t, arg, filt, kw, special):
        if special is not None:
            kw['include_special'] = bool(special)
        frozen = gs.freeze(kw)
        st, r = call(self.f.nearest_time, arg, **kw)
        self.finish('nearest', st, r, filt, special, frozen == gs.freeze(kw), False, t=dt5(t))

    def finish(self, ev, st, r, filt, special, same, mutate, **extra):
        if st == 'err' and isinstance(r, KeyError) and ev in ('query', 'nearest'):
            st = 'KeyError'
        if st == 'err' and ev == 'nearest' and not isinstance(r, (ValueError, NotImplementedError)):
            st = 'exception'
        res = []
        if st == 'ok':
            st2, res = call(lambda: [self.p_rec(x) for x in r])
            if st2 != 'ok':
                st, res = 'projection', []
            if mutate:
                call(self.scramble, r)
        self.ev.append({'ev': ev, 'pid': self.pid, 'out': st, 'res': res, 'filt': list(filt),
                        'special': int(bool(special)), 'same': int(same), **extra})

    def scramble(self, r):
        if self.kind == 'surface':
            for x in r:
                x['values'].clear()
                x['properties'].update(station_id='ZZZZ', latitude=0, priority=77)
            r.clear()
            return
        for x in r:
            names = [x] if self.kind == 'grid' else [x[v] for v in x.data_vars]
            for a in [*names, *(x[c] for c in x.coords)]:
                try:
                    a.values[...] = 7
                except (ValueError, TypeError):
                    pass
            x.attrs.clear()
        r.clear()

    # projections
    def p_rec(self, x):
        return {'grid': self.p_grid, 'sounding': self.p_snd, 'surface': self.p_sfc}[self.kind](x)

    def q(self, name, v):
        return toi(v, 16.0 / 10.0 ** self.scale.get(name, 0))

    def p_grid(self, a):
        vc = a.dims[1]
        lev = a[vc].values[0]
        vals = np.ma.filled(np.ma.masked_invalid(np.asarray(a.values, dtype=np.float64)), np.nan)
        return {'var': codes(a.name), 't': gs.p_time(a['time'].values), 'vc': codes(vc),
                'lev': -1 if lev is None or lev != lev else exact_i(lev),
                'ty': str(a.attrs['grid_type']), 'nx': a.sizes['x'], 'ny': a.sizes['y'],
                'b': [rawbits(v) for v in vals.ravel()],
                'q': [(toi if self.round else exact_i)(v, 2.0 ** -self.e)
                      for v in vals.ravel()]}

    def p_snd(self, d):
        vc = next((c for c in ('pres', 'hght') if c in d.dims), '?')
        at = d.attrs
        pv = []
        for n in d.data_vars:
            v = np.asarray(d[n].values).ravel()
            pv.append({'n': codes(n), 'b': [rawbits(x) for x in v], 'q': [self.q(n, x) for x in v]})
        v = np.asarray(d[vc].values).ravel()
        return {'t': gs.p_time(d['time'].values), 'id': codes(at['station_id']),
                'num': exact_i(at['station_number']), 'lat': toi(at['lat'], 1000),
                'lon': toi(at['lon'], 1000), 'elev': exact_i(at['elevation']),
                'st': codes(at['state']), 'co': codes(at['country']), 'vc': vc,
                'vb': [rawbits(x) for x in v], 'vq': [self.q(vc, x) for x in v],
                'pv': sorted(pv, key=lambda z: z['n'])}

    def p_sfc(self, s):
        p = s['properties']
        pv = []
        for n, v in s['values'].items():
            if isinstance(v, str):
                pv.append({'n': codes(n), 'k': 't', 's': codes(v), 'b': 0, 'q': 0})
            else:
                pv.append({'n': codes(n), 'k': 'f', 's': [], 'b': rawbits(v), 'q': self.q(n, v)})
        return {'t': dt5(p['date_time']), 'id': codes(p['station_id']),
                'num': exact_i(p['station_number']), 'lat': toi(p['latitude'], 1000),
                'lon': toi(p['longitude'], 1000), 'elev': exact_i(p['elevation']),
                'st': codes(p['state']), 'co': codes(p['country']), 'prio': exact_i(p['priority']),
                'pv': pv}


def layouts(ctx):
    f = ctx.tmp('layouts.ndjson')
    ctx.model('MCLayout', 'MCLayout4.cfg' if ctx.thorough() else 'MCLayout.cfg', env={'OUT': str(f)})
    return [json.loads(q) for q in f.read_text().splitlines() if q.strip()]


MAKE = {'grid': grid_desc, 'sounding': sounding_desc, 'surface': surface_desc}


def basic(r):
    r.list()
    r.query(special=1 if r.kind == 'surface' else None)


def g06(ctx):
    rng = ctx.rng
    lays = layouts(ctx)
    items, plan = [], []
    for kind in MAKE:
        for i in range(ctx.n(70, 600)):
            d = MAKE[kind](rng)
            phs = [canon_ph(d)] + [concrete_ph(rng, d, rng.choice(lays), kind == 'grid')
                                   for _ in range(3)] + [wild_ph(rng, d, kind == 'grid')]
            plan.append((kind, d, len(phs)))
            items += [(d, ph) for ph in phs]
    files = build(ctx, items)
    ss, at = [], 0
    for kind, d, n in plan:
        r = Reading(ctx, tag=f'layout-{kind}')
        for j in range(n):
            if r.open(kind, d, files[at + j], be=rng.random() < .15):
                basic(r)
        at += n
        ss.append(r.ev)
    return ss + large(ctx, LARGE * ctx.n(1, 4))


def large(ctx, makers):
    """Files beyond a block of headers or records."""
    rng = ctx.rng
    items = []
    for kind, mk in makers:
        d = mk(rng)
        items += [(kind, d, ph) for ph in (canon_ph(d), wild_ph(rng, d, kind == 'grid'))]
    files = build(ctx, [(d, ph) for _, d, ph in items])
    ss = []
    for (kind, d, _), f in zip(items, files):
        r = Reading(ctx, tag=f'large-{kind}')
        if r.open(kind, d, f, be=rng.random() < .3):
            basic(r)
        ss.append(r.ev)
    return ss


LARGE = [('grid', lambda r: grid_desc(r, 160, 2, 2)),
         ('surface', lambda r: surface_desc(r, 'standard', 30, 12)),
         ('surface', lambda r: surface_desc(r, 'ship', 2, 60)),
         ('surface', lambda r: surface_desc(r, 'climate', 14, 10)),
         ('sounding', lambda r: sounding_desc(r, 6, 25)),
         ('sounding', lambda r: sounding_desc(r, 1, 2, maxlev=280))]


def twin_sessions(ctx, count, makers, pid=None, phs=None):
    """Each file in both byte orders."""
    rng = ctx.rng
    items = []
    for i in range(count):
        kind, mk = makers[i % len(makers)]
        d = mk(rng)
        items.append((kind, d, (phs or (lambda _r, q, _g: canon_ph(q)))(rng, d, kind == 'grid')))
    files = build(ctx, [(d, ph) for _, d, ph in items])
    ss = []
    for (kind, d, _), f in zip(items, files):
        r = Reading(ctx, pid, tag=f'twin-{kind}')
        for be in (False, True):
            if r.open(kind, d, f, be):
                basic(r)
        ss.append(r.ev)
    return ss


def g08(ctx):
    rng = ctx.rng
    out = []
    for i in range(31 * ctx.n(7, 60)):
        nb = 1 + i % 31
        ptype = [1, 4, 3][i // 31 % 3]

        def mk(rng, nb=nb, ptype=ptype):
            nx, ny = rng.choice([(2, 2), (3, 2), (4, 8), (7, 5), (33, 2), (2, 17), (16, 4), (11, 3),
                                 (32, 1), (1, 1), (1, 5)])
            return grid_desc(rng, rng.choice([1, 1, 2]), nx, ny, rng.choice([0, -2, -5, 3]), ptype,
                             nb, 0, True)
        out.append(('grid', mk))
    for _ in range(ctx.n(12, 60)):
        out.append(('grid', lambda rng: grid_desc(rng, 1, None, None, 0, 0, None, 0, True)))
    for _ in range(ctx.n(1, 6)):       # wide, tall and large grids
        big = rng.choice([1, 3])
        for ptype in (1, 3):
            nx, ny = (260, 258) if ptype == big else rng.choice([(90, 40), (70, 60), (300, 11), (9, 500)])
            out.append(('grid', lambda rng, a=(nx, ny, ptype): grid_desc(
                rng, 1, a[0], a[1], 0, a[2], rng.choice([5, 11, 16, 23]), 0, True)))
    return twin_sessions(ctx, len(out), out)


def g10(ctx):
    def snd(rng):
        return sounding_desc(rng, 1, rng.choice([1, 2]), 1, True, rng.choice([1, 1, 2]), 12)

    def sfc(rng):
        return surface_desc(rng, None, None, 2, True)
    return twin_sessions(ctx, ctx.n(330, 3000), [('sounding', snd), ('surface', sfc)])


def g20(ctx):
    def mk(rng):
        return grid_desc(rng, rng.randrange(4, 14), 2, 2, 0, 1, 4, .1)
    return twin_sessions(ctx, ctx.n(150, 1500), [('grid', mk)])


SAMPLES = {
    'grid': ['little_endian.grd', 'grib.grd', 'none.grd', 'diff.grd', 'multi_date.grd',
             'multi_time.grd', 'multilevel_multidate.grd'],
    'sounding': ['msn_hrrr_mrg.snd', 'merged_nopack.snd'],
    'surface': ['climate.sfc', 'lwc_std_sfc.sfc', 'oun_sfc.gem'],
}


def sample_sessions(ctx, kinds):
    """Files written by GEMPAK itself (the repository's sample data), little-endian."""
    from .core import REPO
    ss = []
    for kind in kinds:
        for name in SAMPLES[kind]:
            p = REPO / 'tests' / 'data' / name
            if not p.exists():
                continue
            b = p.read_bytes()
            w = list(struct.unpack(f'<{len(b) // 4}i', b[:len(b) // 4 * 4]))
            r = Reading(ctx, tag=f'sample-{name}')
            d = {'parts': sample_parts(w)}
            if kind == 'grid':
                d.update(sample_grid(w))
                if d['e'] is None:
                    continue
            r.round = True
            if r.open(kind, d, {'w': w, 'tx': []}):
                basic(r)
            twin = REPO / 'tests' / 'data' / 'big_endian.grd'
            if name == 'little_endian.grd' and twin.exists():
                # the same grids written on a big-endian machine
                r.raw = twin.read_bytes()
                if r.open(kind, d, {'w': w, 'tx': []}):
                    basic(r)
            ss.append(r.ev)
    return ss


def sample_parts(w):
    np_, pt = w[18], w[19] - 1
    cnt, typ = w[pt + 3 * np_:pt + 4 * np_], w[pt + 2 * np_:pt + 3 * np_]
    base, tot = pt + 4 * np_, sum(cnt)
    out, k = [], 0
    for n, ty in zip(cnt, typ):
        out.append({'params': [
            {'name': codes(struct.pack('<i', w[base + k + j]).decode().strip()),
             'scale': w[base + tot + k + j] if ty == 4 else 0} for j in range(n)]})
        k += n
    return out


def sample_grid(w):
    """Grid size and a common unit for all packed values, or e = None."""
    fk, nfh = w[9] - 1, w[8]
    nav = fk + 3 * nfh + 1
    fl = lambda x: struct.unpack('<f', struct.pack('<i', x))[0]   # noqa: E731
    nx, ny = int(fl(w[nav + 4])), int(fl(w[nav + 5]))
    es, top = [], 0
    for c in range(w[14]):
        at = w[w[22] - 1 + c]
        if not at:
            continue
        d = w[at:at + w[at - 1]][w[w[19]]:]
        if d[0] == 0:
            continue
        if d[0] not in (1, 4, 3):
            return {'e': None}
        k = 4 if d[0] != 3 else 5
        vals = [fl(x) for x in d[k:k + (2 if k == 4 else 3)]]
        for v in vals:
            m, e = np.frexp(np.float64(v))
            mi, e = int(abs(m) * 2 ** 24), int(e) - 24
            while mi and mi % 2 == 0:
                mi, e = mi // 2, e + 1
            if mi:
                es.append(e)
        top = max(top, abs(vals[0]) + abs(vals[1]) * 2.0 ** d[1])
    e = min(es, default=0)
    if top / 2.0 ** e > 2 ** 29:
        return {'e': None}
    return {'e': e, 'nx': nx, 'ny': ny}


def run(ctx):
    ss = {'G06': g06, 'G08': g08, 'G10': g10, 'G20': g20,
          'G07': lambda c: twin_sessions(c, c.n(240, 2400), list(MAKE.items()), phs=wild_ph),
          }[ctx.pid](ctx)
    if ctx.pid in ('G06', 'G08'):
        ss += sample_sessions(ctx, SAMPLES if ctx.pid == 'G06' else ['grid'])
    ctx.judge(JUDGE['module'], ss, cfg=JUDGE['cfg'])


_ = (datetime, timedelta)
