"""G19: writing contents that cannot be encoded leaves the destination as it was."""
from datetime import datetime, timedelta
import hashlib
import json

import numpy as np

from .gemsess import grid_object
from .lib import call


def digest(path):
    return hashlib.md5(path.read_bytes()).hexdigest() if path.exists() else 'absent'


def listing(d):
    return sorted(f'{p.relative_to(d)}:{digest(p) if p.is_file() else "dir"}' for p in d.rglob('*'))


T0 = datetime(2024, 3, 5)


# Each maker returns (object, write method name); items that the library refuses to take at all
# are left out (there is then nothing to write), `flags` lists the ones that were taken.
def grids(rng, items, how):
    nx, ny = rng.choice([(2, 2), (4, 3), (9, 7)])
    g = grid_object(nx, ny)
    flags = []
    for k, ok in enumerate(items):
        a = np.array([[rng.uniform(-50, 50) for _ in range(nx)] for _ in range(ny)])
        lev = 1000 - k
        if not ok:
            if how == 'range':
                a[-1, -1] = 1e15
            elif how == 'infinite':
                a[0, -1] = np.inf
            elif how == 'level':
                lev = 2 ** 40 + k
            elif how == 'level2':
                lev = -2 ** 31 - 1 - k
        st, _ = call(g.add_grid, a, rng.choice(['TMPK', 'UREL']), 'PRES', lev,
                     T0 + timedelta(hours=k))
        if st == 'ok':
            flags.append(ok)
    if how == 'precision' and not all(items):
        g.precision = 99
    if how == 'packing' and not all(items):
        g.packing_type = 3
    return g, 'to_gempak', flags


def stations(rng, items, how, surface):
    from gempakio import SoundingFile, SurfaceFile
    params = rng.choice([['PRES', 'TMPC'], ['PRES', 'TMPC', 'DWPC', 'HGHT', 'MISC']])
    if surface:
        params[0] = 'PMSL'
    f = (SurfaceFile if surface else SoundingFile)(params)
    flags = []
    for k, ok in enumerate(items):
        n = rng.choice([1, 2, 5])
        data = {p: (rng.uniform(0, 30) if surface else [rng.uniform(0, 30) for _ in range(n)])
                for p in params}
        lat, lon = 30. + k, -100. - k
        info = {'station_id': f'K{k:03d}', 'station_number': 72000 + k, 'elevation': 100 + k,
                'state': 'OK', 'country': 'US'}
        if not ok:
            p = rng.choice(params)
            if how == 'value':
                if surface:
                    data[p] = 1e39
                else:
                    data[p][-1] = 1e39
            elif how == 'number':
                info['station_number'] = 2 ** 40
            elif how == 'elevation':
                info['elevation'] = 10 ** 12
            elif how == 'latitude':
                lat = 1e12
            elif how == 'longitude':
                lon = -1e300
            elif how == 'priority':
                info['priority'] = 2 ** 40
        add = f.add_station if surface else f.add_sounding
        st, _ = call(add, data, lat, lon, T0 + timedelta(hours=k), info)
        if st == 'ok':
            flags.append(ok)
    return f, 'to_gempak', flags


class Unwritable:
    def encode(self):
        raise ValueError('not encodable')


def elements(rng, items, how):
    from gempakio.encode import vgf
    f = vgf.VGFile()
    flags = []
    for k, ok in enumerate(items):
        if ok:
            e = rng.choice([
                lambda: vgf.Marker(-97.5, 35.2, 3 + k, 5),
                lambda: vgf.Line([-97, -96, -95], [35, 36, 35], 4, 1, 0),
                lambda: vgf.SpecialText(-97., 35., 'text', 3),
                lambda: vgf.Front([-97, -96], [35, 36], 420, 4)])()
        elif how == 'base':
            e = vgf.Element()
        elif how == 'foreign':
            e = Unwritable()
        elif how == 'none':
            e = None
        elif how == 'position':
            st, e = call(vgf.Marker, 1e300, 35.2, 3, 5)
            if st != 'ok':
                continue
        elif how == 'text':
            st, e = call(vgf.SpecialText, 'here', 35., 'text', 3)
            if st != 'ok':
                continue
        st, _ = call(f.add_element, e)
        if st == 'ok':
            flags.append(ok)
    return f, 'to_vgf', flags


MAKERS = {
    'grid': (grids, ['range', 'infinite', 'level', 'level2', 'precision', 'packing']),
    'sounding': (lambda r, i, h: stations(r, i, h, False),
                 ['value', 'number', 'elevation', 'latitude', 'longitude']),
    'surface': (lambda r, i, h: stations(r, i, h, True),
                ['value', 'number', 'elevation', 'latitude', 'longitude', 'priority']),
    'vgf': (elements, ['base', 'foreign', 'none', 'position', 'text']),
}


def session(ctx, kind, how, case, seen):
    rng = ctx.rng
    obj, name, flags = MAKERS[kind][0](rng, case['items'], how)
    d = ctx.tmp('dest')
    d.mkdir()
    path = d / rng.choice(['out.dat', 'a b', 'x.vgf'])
    (d / 'bystander').write_bytes(b'untouched')
    if case['before'] == 'junk':
        path.write_bytes(bytes(rng.choices(range(256), k=rng.choice([1, 50, 9000]))))
    elif case['before'] == 'old':
        old, m, _ = MAKERS[kind][0](rng, [True, True], how)
        call(getattr(old, m), path)
    ses = []
    for _ in range(rng.choice([1, 1, 2])):
        dir0 = listing(d)
        out, r = call(getattr(obj, name), str(path) if rng.random() < .5 else path)
        e = {'ev': 'write', 'kind': kind, 'how': how, 'items': [int(x) for x in flags],
             'before': case['before'], 'out': out, 'dir0': dir0, 'dir1': listing(d),
             'dest': digest(path), 'good': '', 'tag': kind}
        if how in ('precision', 'packing') and not all(case['items']):
            e['items'].append(0)
        if out == 'ok':
            other = ctx.tmp('good')
            call(getattr(obj, name), other)
            e['good'] = digest(other)
            other.unlink(missing_ok=True)
        else:
            e['why'] = repr(r)[:100]
            seen[kind] = seen.get(kind, 0) + 1
        ses.append(e)
        if out == 'ok':
            break
    for p in d.iterdir():
        p.unlink()
    d.rmdir()
    return ses


def run(ctx):
    out = ctx.tmp('cases.json')
    ctx.model('MCFailWrite', env={'OUT': str(out)})
    cases = json.loads(out.read_text())
    ses, seen = [], {}
    for kind, (_m, hows) in MAKERS.items():
        for how in hows:
            for case in cases:
                if all(case['items']) and how != hows[0]:
                    continue
                for _ in range(ctx.n(1, 4)):
                    ses.append(session(ctx, kind, how, case, seen))
    ctx.notes['raising_writes'] = seen
    ctx.judge('FailWriteTrace', ses, cfg='FailWriteTrace.cfg')
