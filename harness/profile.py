"""G13 G14 G22: merging of unmerged soundings and the profile functions, judged against the
Merge and Profile specifications (fixed-point; pressures on a logarithmic grid)."""
from datetime import datetime
import json
import math
import struct

import numpy as np

from . import gemread as gr
from .lib import call, codes, toi

NA = -2000000000
NONPOS = NA - 1
P100 = -39863         # 100 hPa
MISS = -9999.0         # the missing value in force (of a file, or as given to a function)
F = ['p', 'z', 't', 'd', 'w', 's']
NAME = {'p': 'PRES', 'z': 'HGHT', 't': 'TEMP', 'd': 'DWPT', 'w': 'DRCT', 's': 'SPED'}
SCALE = {'z': 10, 't': 100, 'd': 100, 'w': 100, 's': 100}
PARTS = {'TTAA': 'ptdwsz', 'TTCC': 'ptdwsz', 'PPAA': 'pws', 'PPCC': 'pws', 'TRPA': 'ptdws',
         'TRPC': 'ptdws', 'MXWA': 'pws', 'MXWC': 'pws', 'TTBB': 'ptd', 'TTDD': 'ptd',
         'PPBB': 'zws', 'PPDD': 'zws'}


def hpa(p):
    if p in (845, 1009, P100):       # the limits of the specification
        return {845: 1050.0, 1009: 1060.0, P100: 100.0}[p]
    return 1000.0 * 2.0 ** (p / 12000)


def val(f, x):
    """Specification units -> library value."""
    if x == NA:
        return MISS
    return hpa(x) if f == 'p' else x / SCALE[f]


def unit(f, v):
    """Library value -> specification units."""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return -7
    if v == MISS or np.float32(v) == np.float32(MISS) or math.isnan(v):
        return NA
    if f == 'p':
        return round(12000 * math.log2(v / 1000)) if v > 0 else -9
    return toi(v, SCALE[f])


def missing(rng, below=False):
    """Sets the missing value for what follows (of a file: below every valid value)."""
    global MISS
    MISS = rng.choice([-9999.0] * 3 + [-999.75, -32768.0] + ([] if below else [float(np.float32(1e20))]))
    return MISS


def level(**k):
    return {**dict.fromkeys(F, NA), **k}


# --- random soundings --------------------------------------------------------------
def atmosphere(rng):
    t0, lapse = rng.randrange(-100, 300), rng.choice([6, 8, 10])

    def temp(k):
        return 10 * (t0 - lapse * min(k, 28) + (rng.randrange(-40, 41) if rng.random() < .5 else 0))
    hs, z = {}, float(rng.randrange(0, 300))
    for k in range(-4, 90):
        hs[k] = round(z)
        z += 1.690782 * (273 + (t0 - lapse * min(k, 28)) / 10)
    return temp, lambda k: 10 * hs[k]


def gen(rng):
    """Parts of one sounding in specification units, plausible or damaged in places."""
    temp, high = atmosphere(rng)
    ks = rng.choice([-1, 0, 0, 1, 2, 4, 7]) if rng.random() < .95 else rng.randrange(15, 50)
    sea = high(ks) - 10 * rng.choice([0, 0, -3, 12]) if rng.random() < .1 else 0

    def hgt(k):
        return high(k) - sea
    wild = rng.random() < .4
    drop = (lambda q: rng.random() < q) if wild else (lambda q: rng.random() < q / 6)

    def wind(x, q=.1):
        x['w'], x['s'] = 100 * rng.randrange(0, 361), 50 * rng.randrange(0, 200)
        if rng.random() < q:
            x['w'] = x['s'] = NA
        elif drop(.06):
            x['s'] = NA
        return x

    def tt(k, miss=.05):
        t = temp(k)
        x = level(p=1000 * k * -1, t=t, d=t - 10 * rng.choice([0, 5, 30, 100, 250]))
        if rng.random() < .2:
            x['d'] = NA
        if drop(miss):
            x['t'] = x['d'] = NA
        return x

    man = sorted(rng.sample(range(-1, 75), rng.randrange(2, 16)))
    tops = rng.choice([30, 40, 60, 75])
    man = [k for k in man if k <= tops and k != ks]
    cut = rng.choice([40, 40, 20])
    sfc = wind(tt(ks))
    sfc['z'] = rng.choice([NA, hgt(ks)])
    if drop(.5):
        sfc = rng.choice([level(), level(p=sfc['p']), level(p=2500), level(z=hgt(ks)),
                          {**sfc, 'p': -1000 * (man[0] if man else ks) - 500}])
    elif ks <= 0 and rng.random() < .1:
        sfc['p'] = rng.choice([1009, 1009, 1010])
    at_sfc = ()        # other parts tell what the surface lacks
    if rng.random() < .08:
        sfc = rng.choice([{**sfc, 't': NA, 'd': NA}, {**sfc, 't': NA, 'd': NA, 'w': NA, 's': NA},
                          {**sfc, 'w': NA, 's': NA}, {**sfc, 'p': NA}])
        at_sfc = (ks,)
    out = {n: [] for n in PARTS}
    out['TTAA'] = [sfc]
    for k in man:
        x = wind(tt(k, .2), .3)
        x['z'] = hgt(k) + 10 * rng.randrange(-40, 41)
        if k < ks:
            x = rng.choice([level(p=-1000 * k, z=x['z']), level(p=-1000 * k), x])
        elif drop(.15):
            x['z'] = NA
        if drop(.04):
            x['p'] = NA
        out['TTAA' if k <= cut else 'TTCC'].append(x)
    pool = [k for k in range(-1, tops)]

    def pick(n, lo, hi, extra=()):
        c = [k for k in pool if lo <= k <= hi]
        s = set(rng.sample(c, min(n, len(c))))
        return sorted(s | {k for k in extra if lo <= k <= hi})
    some = rng.sample(man, min(len(man), rng.randrange(0, 3))) if man else []
    sig = pick(rng.randrange(0, 9), ks if rng.random() < .8 else -1, tops, [*some, *(k for k in at_sfc if rng.random() < .5)])
    for k in sig:
        if k != ks or at_sfc:
            out['TTBB' if k <= cut else 'TTDD'].append(tt(k))
    if rng.random() < (.3 if at_sfc else .8):
        x = tt(ks)
        if rng.random() < .3:
            x['p'] -= 1
        out['TTBB'].insert(0, level() if drop(.3) else x)
        if ks == 0 and rng.random() < .1 and not (len(out['TTBB']) > 1 and (out['TTBB'][1]['p'] == NA or out['TTBB'][1]['p'] > 844)):
            out['TTBB'].insert(1, {**tt(-1), 'p': rng.choice([845, 846])})
    for n, lo, hi in (('TRPA', 20, cut), ('TRPC', cut + 1, 75)):
        if at_sfc and rng.random() < .4:
            lo = ks - 1
        for k in pick(rng.choice([0, 0, 1, 1, 2]), lo, hi,
                      [*(some[:1] if rng.random() < .3 else ()), *(k for k in at_sfc if rng.random() < .7)]):
            x = wind(tt(k))
            out[n].append(x if not drop(.1) else {**x, 'p': NA})
    for n, lo, hi in (('MXWA', 10, cut), ('MXWC', cut + 1, 75)):
        for k in pick(rng.choice([0, 0, 1, 2]), lo, hi, some if rng.random() < .3 else ()):
            out[n].append(wind(level(p=-1000 * k)))
    for n, lo, hi in (('PPAA', -1, cut), ('PPCC', cut + 1, 75)):
        if rng.random() < .4:
            out[n] = [wind(level(p=-1000 * k)) for k in
                      pick(rng.randrange(0, 3), max(lo, ks), hi,
                           [k for k in man if rng.random() < .6])]
    # significant winds, on pressures or heights
    P = dict(out)
    for n, key, lo, hi in (('PPBB', 'bz', ks, cut), ('PPDD', 'dz', cut + 1, tops)):
        z = rng.random() < .65
        if z:
            hs = {10 * 305 * i for i in rng.sample(range(1, 110), rng.randrange(0, 9))}
            hs |= {x['z'] for x in out['TTAA'] + out['TTCC']
                   if x['z'] not in (NA, 0) and rng.random() < .12}
            # close to a level: into it when less than a meter away
            hs |= {x['z'] + rng.choice([-12, -8, -3, 3, 8, 12]) for x in out['TTAA'] + out['TTCC']
                   if x['z'] != NA and rng.random() < .08}
            hs = [h for h in hs if (h <= hgt(cut)) == (n == 'PPBB') and h > 0]
            lv = [wind(level(z=h), .08) for h in sorted(hs)]
            if n == 'PPBB' and rng.random() < .6:
                lv.insert(0, wind(level(z=rng.choice([0, 0, max(hgt(ks), 0), NA]))))
        else:
            lv = [wind(level(p=-1000 * k), .08) for k in
                  pick(rng.randrange(1, 8), lo, hi, [k for k in man if rng.random() < .2])]
            if n == 'PPBB' and rng.random() < .6 and ks not in [-x['p'] // 1000 for x in lv]:
                lv.insert(0, wind(level(p=-1000 * ks)))
            if rng.random() < .15:
                lv.insert(rng.choice([0, 0, len(lv)]), rng.choice([level(), wind(level())]))
        P[n], P[key] = lv, int(z or not lv)
    for n in PARTS:
        if n not in ('TTAA', 'TTBB', 'PPBB') and rng.random() < .25:
            P[n] = []
        elif rng.random() < (.12 if wild else .03):
            P[n] = []
        if wild and len(P[n]) > 2 and rng.random() < .06:
            i = rng.randrange(1, len(P[n]) - 1)
            if rng.random() < .5 and n != 'TTAA':
                P[n][i], P[n][i + 1] = P[n][i + 1], P[n][i]
            else:
                P[n].insert(i, dict(P[n][i]))
    for n, key in (('PPBB', 'bz'), ('PPDD', 'dz')):
        if not P[n]:
            P[key] = 1
    P['selv'] = NA if drop(.1) else hgt(ks)
    return P


# parameters of packed parts: decimal scale, offset, bits
PACK = {'p': (-4, 0, 24), 'z': (0, -1000, 17), 't': (-2, -20000, 16), 'd': (-2, -20000, 16),
        'w': (0, 0, 9), 's': (-1, 0, 11)}
NEGZ = (-4, -12000000, 31)


def field(q, v):
    """The stored field of a packed value; None when the packing cannot hold it."""
    s, off, nb = q
    if v == MISS:
        return 2 ** nb - 1
    k = v * 10 ** -s
    i = round(k) - off
    return i if 0 <= i < 2 ** nb - 1 and abs(k - round(k)) < (.6 if s == -4 else 1e-6) else None


def sound_desc(rng, Ps, pform, packed=None):
    """File with one sounding per station; pform: PPBB/PPDD carry a PRES parameter."""
    miss = missing(rng, True)
    names = list(PARTS)
    pars = {n: list(PARTS[n]) for n in names}
    for n in ('PPBB', 'PPDD'):
        if pform:
            pars[n] = list('pws')
    for n in names:
        rng.shuffle(pars[n])
    if rng.random() < .4:
        rng.shuffle(names)
    ck = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI']
    stns = []
    for i, P in enumerate(Ps):
        s = gr.r_station(rng, i)
        s['num'] = 1000 + i
        s['elev'] = -9999 if P['selv'] == NA else P['selv'] // 10
        stns.append(s)
    t = datetime(2021, 6, 5, 12)
    recs = []
    # all parts are packed alike, so that equal pressures stay equal
    packed = rng.random() < .35 if packed is None else packed
    winds = ('PPBB', 'PPDD')
    pack = {n: [NEGZ if f == 'z' and n in winds else PACK[f] for f in pars[n]] for n in names}
    for c, P in enumerate(Ps):
        for i, n in enumerate(names):
            if not P[n] and rng.random() < .9:
                continue
            lv = []
            # pressures in the place of heights are marked by a negative first value
            neg = n in winds and not pform and P[n] and P['bz' if n == 'PPBB' else 'dz'] == 0
            first = True
            for x in P[n]:
                w = []
                for f in pars[n]:
                    v = val(f, x[f])
                    if f == 'z' and neg:
                        v = val('p', x['p'])
                        if v != MISS and (first or rng.random() < .3):
                            v, first = -v, False
                    w.append(v)
                lv.append(w)
            data = gr.raw([gr.fw(v) for w in lv for v in w])
            if packed:
                q = [[field(*z) for z in zip(pack[n], w)] for w in lv]
                if any(None in w for w in q):
                    return sound_desc(rng, Ps, pform, False)
                if q:
                    data = {'k': 'pack', 'lv': q, 'bits': [z[2] for z in pack[n]]}
            recs.append({'r': 1, 'c': c + 1, 'p': i + 1, 'hdr': [1200], 'data': data})
    return {'missf': gr.fw(miss), 'ftype': 1, 'src': 4, 'fh': [], 'rkeys': [codes('DATE'), codes('TIME')],
            'ckeys': [codes(k) for k in ck], 'rows': [gr.slot([gr.ymd(t), gr.hm(t)], [0, 0])],
            'cols': [gr.slot(gr.stn_words(ck, s), [gr.STN_TX.get(k, 0) for k in ck]) for s in stns],
            'parts': [gr.part(n, 1, 4 if packed else 1,
                              [(NAME[f], *(q if packed else ())) for f, q in zip(pars[n], pack[n])])
                      for n in names],
            'recs': recs}


def observe(ds):
    n = ds.sizes['pres']
    p = np.asarray(ds['pres'].values).ravel()
    v = {f: np.asarray(ds[NAME[f].lower()].values).ravel() for f in F if f != 'p'}
    return [{'p': unit('p', p[i]), **{f: unit(f, v[f][i]) for f in v}} for i in range(n)]


def merge_events(ctx, Ps, f, pid, miss):
    global MISS
    from gempakio import GempakSounding
    MISS = miss
    path = ctx.tmp('u.snd')
    path.write_bytes(gr.le_bytes(f))
    st, g = call(GempakSounding, path)
    path.unlink()
    ev = []
    for i, P in enumerate(Ps):
        out, res, sp = st, [], NA
        if st == 'ok':
            out, r = call(g.snxarray, station_number=1000 + i, limit=10)
            if out == 'ok':
                if r:
                    out, res = call(observe, r[0])
                    sp = unit('p', r[0].attrs['station_pressure'])
                    if out != 'ok':
                        out, res = 'projection', []
                else:
                    out = 'none'
            elif out == 'timeout':
                out = 'hang'
            elif isinstance(r, KeyError) and 'matched' in str(r):
                out = 'none'
        ev.append({'ev': 'merge', 'pid': pid, 'tag': 'merge', 'miss': str(miss), 'P': P, 'out': out, 'res': res,
                   'sp': sp})
    return ev


def merge_sessions(ctx, Pss, pid):
    """Pss: list of (list of soundings, pform)."""
    ds = [sound_desc(ctx.rng, Ps, pf) for Ps, pf in Pss]
    files = gr.build(ctx, [(d, gr.canon_ph(d)) for d in ds])
    return [merge_events(ctx, Ps, f, pid, struct.unpack('<f', struct.pack('<I', d['missf'] % 2**32))[0])
            for (Ps, _), f, d in zip(Pss, files, ds)]


def pform_ok(P, pf):
    return not pf or ((P['bz'] == 0 or not P['PPBB']) and (P['dz'] == 0 or not P['PPDD']))


def fix_pform(P, pf):
    if pf:
        for n, key in (('PPBB', 'bz'), ('PPDD', 'dz')):
            if P[n] and P[key] == 1:
                P[n] = []
            # a PRES parameter is what makes winds be on pressures; without levels it is moot
            P[key] = 0 if P[n] else 1
    else:
        # without a valid pressure nothing marks the values as pressures
        for n, key in (('PPBB', 'bz'), ('PPDD', 'dz')):
            if P[n] and P[key] == 0 and all(x['p'] == NA for x in P[n]):
                P[n], P[key] = [], 1
    return P


def g13(ctx):
    rng = ctx.rng
    per = 12
    Pss = []
    for i in range(ctx.n(150, 1600)):
        pf = rng.random() < .2
        Pss.append(([fix_pform(gen(rng), pf) for _ in range(per)], pf))
    f = ctx.tmp('merge.ndjson')
    ctx.model('MCMerge', 'MCMerge.cfg', env={'OUT': str(f)})
    cases = [json.loads(x) for x in f.read_text().splitlines() if x.strip()]
    rng.shuffle(cases)
    cases = cases[:ctx.n(1200, 100000)]
    for i in range(0, len(cases), per):
        Pss.append((cases[i:i + per], False))
    return merge_sessions(ctx, Pss, 'G13')


# --- direct calls ---------------------------------------------------------------------
def as_dict(L, kind=float):
    return {NAME[f]: [kind(val(f, x[f])) for x in L] for f in F}


def from_dict(d):
    n = len(d['PRES'])
    return [{f: unit(f, d[NAME[f]][i]) for f in F} for i in range(n)] \
        if all(len(d[NAME[f]]) == n for f in F) else []


def direct(ctx, pid, ev, fn, L):
    miss = missing(ctx.rng)
    d = as_dict(L, ctx.rng.choice([float, np.float32, np.float64]))
    kw = {'missing': ctx.rng.choice([float, np.float32])(miss)}
    out, _ = call(fn, d, limit=5, **(kw if miss != -9999 else {}))
    res = []
    if out == 'ok':
        out, res = call(from_dict, d)
        if out != 'ok':
            out, res = 'projection', []
    elif out == 'timeout':
        out = 'hang'
    return {'ev': ev, 'pid': pid, 'tag': ev, 'L': L, 'miss': str(miss), 'out': out, 'res': res}


def chunked(evs, n=60):
    return [evs[i:i + n] for i in range(0, len(evs), n)]


def rprofile(rng, n, tmiss=.3, zmiss=1.0, pmiss=0.0, alone=0.0):
    temp, hgt = atmosphere(rng)
    ks = set(rng.sample(range(0, 75), n))
    if 40 not in ks and rng.random() < .3:
        ks = set(sorted(ks)[1:]) | {40}
    ks = sorted(ks)
    L = []
    for i, k in enumerate(ks):
        t = temp(k)
        x = level(p=-1000 * k, z=hgt(k) + 10 * rng.randrange(-30, 31), t=t,
                  d=t - 10 * rng.choice([0, 20, 100, 300]), w=100 * rng.randrange(0, 361),
                  s=50 * rng.randrange(200))
        if rng.random() < zmiss:
            x['z'] = NA
        if rng.random() < tmiss:
            x['t'] = x['d'] = NA
            if rng.random() < alone:
                x['d'] = t
        elif rng.random() < tmiss:
            x['d'] = NA
        if rng.random() < tmiss:
            x['w'] = x['s'] = NA
            if rng.random() < alone:
                x[rng.choice('ws')] = 4500
        if k == 40 and rng.random() < .7:
            x['p'] = P100
        if rng.random() < pmiss:
            x['p'] = NA
        L.append(x)
    return L


def g14(ctx):
    from gempakio import gemcalc
    rng = ctx.rng
    f = ctx.tmp('gaps.ndjson')
    ctx.model('MCProfile', f'MCProfile{ctx.n(5, 6)}.cfg', env={'OUT': str(f)})
    Ls = [json.loads(x) for x in f.read_text().splitlines() if x.strip()]
    if len(Ls) > 4000:
        Ls = rng.sample(Ls, ctx.n(2500, len(Ls)))
    for _ in range(ctx.n(1500, 15000)):
        L = rprofile(rng, rng.randrange(1, 14) if rng.random() < .95 else rng.randrange(14, 60),
                     rng.choice([.1, .3, .6, .9]), 1.0, rng.choice([0, 0, 0, .05, .2]),
                     rng.choice([0, 0, .2]))
        if rng.random() < .1:
            L[0]['p'] = NA
        Ls.append(L)
    evs = [direct(ctx, 'G14', 'fill', gemcalc.interp_missing_data, L) for L in Ls]
    return chunked(evs)


def point(ctx, pid, v, a, b, neg=None):
    from gempakio import gemcalc
    miss = missing(ctx.rng)
    kw = {'missing': miss} if miss != -9999 else {}
    fields = [f for f in F if f == 'p' or ctx.rng.random() < .9]
    da = {NAME[f]: val(f, a[f]) for f in fields}
    db = {NAME[f]: val(f, b[f]) for f in fields}
    if neg:
        (da if neg == 'a' else db)['PRES'] = ctx.rng.choice([-500.0, 0.0, -1.0])
        (a if neg == 'a' else b)['p'] = NA
    st, r = call(gemcalc.interp_parameters, val('p', v), da, db, **kw)
    res = level()
    out = st if st == 'ok' else type(r).__name__
    if st == 'ok':
        for f in F:
            if f not in fields:
                a, b = {**a, f: NA}, {**b, f: NA}
        bad = set(r) != set(da)
        res = level(**{f: unit(f, r[NAME[f]]) for f in fields if NAME[f] in r})
        if bad:
            out = 'fields'
    return {'ev': 'point', 'pid': pid, 'tag': 'point', 'v': v, 'a': a, 'b': b, 'out': out, 'res': res}


def g22(ctx):
    from gempakio import gemcalc
    rng = ctx.rng
    evs = []
    # every pair of directions on a 15 degree circle, and speeds, at every quarter of the layer
    dirs = range(0, 361, ctx.n(30, 15))
    for w1 in dirs:
        for w2 in dirs:
            lo = rng.randrange(0, 50)
            a = level(p=-1000 * lo, w=100 * w1, s=1000, t=1500, d=rng.choice([NA, 1000]), z=1000)
            b = level(p=-1000 * (lo + 8), w=100 * w2, s=rng.choice([NA, 5000]), t=-3000, d=500, z=9000)
            if rng.random() < .3:
                a, b = b, a
            evs.append(point(ctx, 'G22', -1000 * (lo + rng.choice([2, 4, 6, 7])), dict(a), dict(b)))
    for _ in range(ctx.n(900, 9000)):
        L = rprofile(rng, 2, .2, .2)
        a, b = (L[0], L[1]) if rng.random() < .7 else (L[1], L[0])
        lo, hi = sorted((a['p'] // 1000, b['p'] // 1000))
        c = rng.random()
        if c < .7:
            v = rng.randrange(lo, hi + 1) * 1000
        elif c < .9:
            v = rng.choice([lo - 1, hi + 1, lo, hi, -200]) * 1000
        else:
            v = rng.randrange(lo, hi + 1) * 1000
        evs.append(point(ctx, 'G22', v, dict(a), dict(b), rng.choice('ab') if c >= .9 else None))
    for _ in range(ctx.n(500, 5000)):
        n = rng.randrange(1, 12) if rng.random() < .95 else rng.randrange(12, 60)
        # heights from temperatures
        L = rprofile(rng, n, 0, rng.choice([.3, .7, .9, .95]))
        holes = rng.choice([0, 0, .1, .3])
        for x in L:
            if rng.random() < .2:
                x['d'] = NA
        for i in range(n):
            if rng.random() < holes:
                L[i]['t'] = NA
            if rng.random() < holes / 3:
                L[i]['p'] = NA
        evs.append(direct(ctx, 'G22', 'moist', gemcalc.interp_moist_height, L))
        L = rprofile(rng, n, .4, rng.choice([.3, .7, .9, .95]), rng.choice([0, 0, .1, .3]))
        evs.append(direct(ctx, 'G22', 'logz', gemcalc.interp_logp_height, L))
        L = rprofile(rng, n, .4, rng.choice([0, .1]), rng.choice([.3, .7, .9, .95]))
        evs.append(direct(ctx, 'G22', 'logp', gemcalc.interp_logp_pressure, L))
    f = ctx.tmp('heights.ndjson')
    ctx.model('MCHeights', f'MCHeights{ctx.n(4, 5)}.cfg', env={'OUT': str(f)})
    for x in f.read_text().splitlines():
        if x.strip():
            c = json.loads(x)
            evs.append(direct(ctx, 'G22', c['fn'], FNS(c['fn']), c['L']))
    return chunked(evs)


def FNS(n):
    from gempakio import gemcalc
    return {'moist': gemcalc.interp_moist_height, 'logz': gemcalc.interp_logp_height,
            'logp': gemcalc.interp_logp_pressure}[n]


# --- thermodynamic functions ----------------------------------------------------------
def number(rng, v):
    return rng.choice([float, float, np.float64])(v)


def scalar(ctx, ev, fn, fields, units, scale):
    """fields: specification values by name (in the order of the arguments)."""
    miss = missing(ctx.rng)
    kw = {'missing': miss} if miss != -9999 else {}
    args = [ctx.rng.choice([0., -5., -1000.]) if v == NONPOS
            else MISS if v == NA else hpa(v) if u == 'p' else v / u
            for v, u in zip(fields, units)]
    st, r = call(fn, *[number(ctx.rng, a) for a in args], **kw)
    res = -5
    if st == 'ok':
        st, res = call(lambda: NA if r == miss else toi(r, scale))
        res = res if st == 'ok' else -5
    return {'ev': ev, 'pid': 'G24', 'tag': ev, 'miss': str(miss), 'res': res, 'out': st}


def g24(ctx):
    from gempakio import gemcalc as gc
    rng = ctx.rng
    ctx.model('MCThermo', 'MCThermo.cfg')
    evs = []

    def some(x, q=.08):
        return NA if rng.random() < q else x

    def dew(t):
        return some(rng.choice([t, t - rng.randrange(0, 4000), rng.randrange(-12000, 4500)]))

    def pres():
        return rng.choice([NA, NONPOS] + [-1000 * rng.randrange(-1, 80) + rng.randrange(0, 1000)] * 14)

    for _ in range(ctx.n(1200, 12000)):
        t, p = rng.randrange(-9000, 4500), pres()
        d = dew(t)
        t = some(t)
        evs.append({**scalar(ctx, 'tv', gc.virtual_temperature, [t, d, p], [100, 100, 'p'], 1000),
                    't': t, 'd': d, 'p': p})
        p = pres()
        evs.append({**scalar(ctx, 'ratio', gc.mixing_ratio, [d, p], [100, 'p'], 1000), 'd': d, 'p': p})
        a, b = ({'t': some(x), 'd': dew(x), 'p': pres()} for x in (rng.randrange(-9000, 4500),
                                                                  rng.randrange(-9000, 4500)))
        evs.append({**scalar(ctx, 'sclh', gc.scale_height, [a['t'], b['t'], a['d'], b['d'], a['p'], b['p']],
                             [100, 100, 100, 100, 'p', 'p'], 10), 'a': a, 'b': b})
        z, pa, pb, h = some(rng.randrange(-5000, 300000)), pres(), pres(), some(rng.randrange(50000, 95000))
        evs.append({**scalar(ctx, 'mhgt', gc.moist_hydrostatic_height, [z, pa, pb, h], [10, 'p', 'p', 10], 10),
                    'z': z, 'pa': pa, 'pb': pb, 'h': h})
    for d in [NA] * 5 + list(range(-9000, 4500, ctx.n(77, 11))):
        evs.append({**scalar(ctx, 'vapor', gc.vapor_pressure, [d], [100], 10000), 'd': d})
    return chunked(evs)


def run(ctx):
    ss = {'G13': g13, 'G14': g14, 'G22': g22, 'G24': g24}[ctx.pid](ctx)
    ctx.judge('ProfileTrace', ss, cfg='Trace.cfg')
