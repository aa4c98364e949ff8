"""G23: what the readers report of a file's management part, against DMMeta.tla."""
import struct

from . import gemread as gr
from .lib import bits, call, codes

LABEL = ['version', 'file_headers', 'file_keys_ptr', 'rows', 'row_keys', 'row_keys_ptr',
         'row_headers_ptr', 'columns', 'column_keys', 'column_keys_ptr', 'column_headers_ptr',
         'parts', 'parts_ptr', 'data_mgmt_ptr', 'data_mgmt_length', 'data_block_ptr', 'file_type',
         'data_source', 'machine_type', 'missing_int']
NAV = ['grid_definition_type', 'left_grid_number', 'bottom_grid_number', 'right_grid_number',
       'top_grid_number', 'lower_left_lat', 'lower_left_lon', 'upper_right_lat', 'upper_right_lon',
       'proj_angle1', 'proj_angle2', 'proj_angle3']
ANL = ['analysis_type', 'delta_n', 'delta_x', 'delta_y', 'grid_ext_left', 'grid_ext_down',
       'grid_ext_right', 'grid_ext_up'] + [
    f'{a}_{b}' for a in ('garea', 'extarea', 'datarea')
    for b in ('llcr_lat', 'llcr_lon', 'urcr_lat', 'urcr_lon')] + ['datarea_urcrn_lon']
DM = ['next_free_word', 'max_free_pairs', 'actual_free_pairs', 'last_word']


def exact_i(v):
    return int(v) if int(v) == v else -12345


def ints(o, names):
    return {n: [exact_i(getattr(o, n))] for n in names if hasattr(o, n)}


def floats(o, names):
    return {n: [bits(getattr(o, n))] for n in names if hasattr(o, n)}


def report(f):
    """The public attributes of a reader, as the model names them."""
    lab = f.dm_label
    out = {'label': {**ints(lab, LABEL), **floats(lab, ['missing_float'])}}
    nh = int(lab.file_headers)
    keys = f.file_keys if nh > 0 else None
    out['fkeys'] = [{'name': codes(getattr(keys, f'header_name{i}')),
                     'len': exact_i(getattr(keys, f'header_length{i}')),
                     'typ': exact_i(getattr(keys, f'header_type{i}'))} for i in range(1, nh + 1)]
    nav, anl = f.navigation_block, f.analysis_block
    out['hasnav'], out['hasanl'] = int(nav is not None), int(anl is not None)
    out['nav'] = {'projection': codes(nav.projection), **floats(nav, NAV)} if nav else {'none': []}
    out['anl'] = floats(anl, ANL) if anl else {'none': []}
    dm = f.data_management
    out['dm'] = ints(dm, DM)
    out['free'] = []
    for i in range(1, 125):
        if not hasattr(dm, f'free_word{i}'):
            break
        out['free'].append(exact_i(getattr(dm, f'free_word{i}')))
    out['rk'] = [codes(getattr(f.row_keys, f'row_key{i}')) for i in range(1, lab.row_keys + 1)]
    out['ck'] = [codes(getattr(f.column_keys, f'column_key{i}'))
                 for i in range(1, lab.column_keys + 1)]
    out['parts'] = [{'name': codes(p.name), 'hdr': exact_i(p.header_length),
                     'typ': exact_i(p.data_type), 'cnt': exact_i(p.parameter_count)}
                    for p in f.parts]
    out['params'] = [[{'name': codes(n), 'scale': exact_i(s), 'offset': exact_i(o), 'bits': exact_i(b)}
                      for n, s, o, b in zip(p['name'], p['scale'], p['offset'], p['bits'], strict=True)]
                     for p in f.parameters]
    return out


EMPTY = {'label': {'none': []}, 'fkeys': [], 'hasnav': 0, 'hasanl': 0, 'nav': {'none': []},
         'anl': {'none': []}, 'dm': {'none': []}, 'free': [], 'rk': [], 'ck': [], 'parts': [],
         'params': []}


def look(ctx, kind, raw, words, tag, cut=0):
    from gempakio import GempakGrid, GempakSounding, GempakSurface
    cls = {'grid': GempakGrid, 'sounding': GempakSounding, 'surface': GempakSurface}[kind]
    p = ctx.tmp('m.gem')
    p.write_bytes(raw)
    st, f = call(cls, p if ctx.rng.random() < .5 else str(p))
    p.unlink(missing_ok=True)
    evs = [{'ev': 'open', 'kind': kind, 'w': words, 'cut': cut, 'out': st, 'tag': tag,
            'why': repr(f)[:200] if st == 'err' else ''}]
    if st == 'ok':
        st, r = call(report, f)
        evs.append({'ev': 'meta', 'out': st, 'tag': tag, **(r if st == 'ok' else
                                                             {**EMPTY, 'why': repr(r)[:200]})})
    return evs


def le(raw):
    n = len(raw) // 4
    return list(struct.unpack(f'<{n}i', raw[:4 * n]))


def vary(rng, kind, d):
    """Management values other than the writer's own."""
    if rng.random() < .8:
        d['mach'] = rng.choice([0, 2, 6, 11, 12])
        d['missi'] = rng.choice([-9999, -999, 0, 2147483647])
        d['missf'] = rng.choice([gr.MISSF, gr.fw(-999.75), gr.fw(1e20), gr.fw(-32767.5)])
        d['src'] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 99, 100, 102, 105, 8, -1, 50, 1000])
    if rng.random() < .7:
        d['dmw'] = [rng.choice([0, 62, -9999, rng.randrange(-2 ** 31, 2 ** 31)]) for _ in range(127)]
    if kind == 'grid':
        nav = gr.navb(d['nx'], d['ny'], rng.choice(['CED', 'LCC', 'STR', 'MER', 'LEA']),
                      (rng.uniform(5, 30), rng.uniform(-120, -90)),
                      (rng.uniform(35, 60), rng.uniform(-80, -50)),
                      (rng.choice([30., 45.25, 60.]), rng.choice([-100., -95.5]),
                       rng.choice([30., 50.])))
        nav[0] = gr.fw(rng.choice([1., 2., 3.]))
        nav[2:4] = [gr.fw(rng.choice([1., 2., -1.])) for _ in range(2)]
        t = rng.choice([0, 1, 2, 2, 3])
        anl = [gr.fw(float(t))] + [gr.fw(rng.uniform(-500, 500)) for _ in range(127)]
        d['fh'][0]['w'], d['fh'][1]['w'] = nav, anl
        for h in d['fh']:
            h['typ'] = rng.choice([1, 1, 2, 3])
        for k in range(rng.choice([0, 0, 1, 2])):
            n = rng.choice([0, 1, 5, 140])
            d['fh'].append({'name': codes(f'XH{k}'), 'typ': rng.choice([1, 2, 3]),
                            'w': [rng.randrange(-2 ** 31, 2 ** 31) for _ in range(n)], 'tx': [0] * n})
    else:
        for p in d['parts']:
            for q in p['params']:
                if p['typ'] != 4 and rng.random() < .5:
                    q.update(scale=rng.randrange(-9, 9), offset=rng.randrange(-9999, 9999),
                             bits=rng.randrange(0, 33))
    return d


def damaged(rng, w):
    """A file some way from a valid one: (bytes, words, cut?)."""
    raw = bytearray(struct.pack(f'<{len(w)}i', *w))
    how = rng.choice(['head', 'head', 'nav', 'anl', 'cut', 'cut'])
    nfh = w[8]
    if how == 'head' or (nfh == 0 and how != 'cut'):
        at = rng.randrange(28)
        raw[at] = rng.choice([x for x in (0, 32, 65, 97, raw[at] ^ 32, raw[at] + 1) if x != raw[at]])
    elif how == 'cut':
        raw = raw[:4 * rng.choice([0, 3, 7, 20, 31, rng.randrange(len(w)), rng.randrange(len(w))])]
    else:
        at = w[9] - 1 + 3 * nfh + (0 if how == 'nav' else 257)
        v = w[at] + rng.choice([1, -1, 128, -w[at], -300])
        struct.pack_into('<i', raw, 4 * at, v)
    return bytes(raw), le(bytes(raw)), int(how == 'cut')


def run(ctx):
    rng = ctx.rng
    ctx.model('MCMeta', cfg='MCMeta3.cfg' if ctx.thorough() else 'MCMeta.cfg')
    plan = []
    for i in range(ctx.n(150, 1500)):
        kind = ('grid', 'sounding', 'surface')[i % 3]
        d = vary(rng, kind, gr.MAKE[kind](rng))
        ph = (gr.wild_ph if i % 2 else lambda _r, q, _g: gr.canon_ph(q))(rng, d, kind == 'grid')
        plan.append((kind, d, ph))
    files = gr.build(ctx, [(d, ph) for _, d, ph in plan])
    ses = []
    for (kind, _d, _ph), f in zip(plan, files):
        ses.append(look(ctx, kind, gr.le_bytes(f), f['w'], 'little')
                   + look(ctx, kind, gr.be_bytes(f), f['w'], 'big'))
        raw, w, cut = damaged(rng, f['w'])
        ses.append(look(ctx, kind, raw, w, 'cut' if cut else 'damaged', cut))
    from .core import REPO
    for kind, names in gr.SAMPLES.items():
        for n in names:
            p = REPO / 'tests' / 'data' / n
            if p.exists():
                ses.append(look(ctx, kind, p.read_bytes(), le(p.read_bytes()), f'sample-{n}'))
    ctx.judge('DMMetaTrace', ses, cfg='DMMetaTrace.cfg')

