"""C04 headers and data survive writing and reading."""
import glob
import json
import os
import tempfile
import numpy as np
import obspy
from obspy.io.sac.util import get_sac_reftime
import rf
from rf.rfstream import read_rf
import kit
import mk

TEXT = {'type': ['rf', 'rf', 'profile', 'harmonic', 'weird'], 'phase': ['P', 'S', 'PKP', 'SKS', 'p'], 'moveout': ['Ps', 'Sp', 'Ppps', 'Ppss', 'PsS'],
        'event_id': ['smi:local/%d' % i for i in range(5)], 'box_lonlat': [[12.5, -3.25], [0., 0.], [-170., 5.5], [1.5, 2.5], [7., 8.]]}
TIMES = ('event_time', 'onset')
NUM = ('station_latitude', 'station_longitude', 'station_elevation', 'event_latitude', 'event_longitude', 'event_depth', 'event_magnitude', 'distance', 'back_azimuth',
       'inclination', 'slowness', 'pp_latitude', 'pp_longitude', 'pp_depth', 'box_pos', 'box_length', 'slowness_before_moveout')
# table of the documentation (rf/__init__.py)
TABLE = {x.split()[0]: x.split()[1:] for x in '''station_latitude   COMMENT    stla
station_longitude  COMMENT    stlo
station_elevation  COMMENT    stel
event_latitude     LAT        evla
event_longitude    LON        evlo
event_depth        DEPTH      evdp
event_magnitude    MAGNITUDE  mag
event_time         ORIGIN     o
onset              P-ONSET    a
type               COMMENT    kuser0
phase              COMMENT    kuser1
moveout            COMMENT    kuser2
distance           DISTANCE   gcarc
back_azimuth       AZIMUTH    baz
inclination        INCI       user0
slowness           SLOWNESS   user1
pp_latitude        COMMENT    user2
pp_longitude       COMMENT    user3
pp_depth           COMMENT    user4
box_pos            COMMENT    user5
box_length         COMMENT    user6'''.splitlines()}
FIELDS = NUM + TIMES + tuple(TEXT)


def value(f, v, kind):
    if f in TEXT:
        x = TEXT[f][v]
        if f == 'box_lonlat' and kind == 1:
            x = tuple(x)
        return x
    if f in TIMES:
        return mk.at(v)
    if kind == 1 and v % 1000 == 0:
        return v // 1000
    if kind == 2:
        return np.float64(v / 1000.)
    if kind == 3 and v % 125 == 0:
        return np.float32(v / 1000.)
    if kind == 4 and v % 1000 == 0:
        return np.int64(v // 1000)
    return v / 1000.


def observe(f, x):
    try:
        if f in TEXT:
            if f == 'box_lonlat':
                x = [float(y) for y in x]
            if f == 'type' and x == 'rf':
                return 0
            return TEXT[f].index(x)
        if f in TIMES:
            return (x._ns - mk.NS0 + 500000) // 1000000
        return kit.fx(float(x), 1000)
    except Exception:
        return mk.BADTICK


def norm(ch):
    """The two names of type rf are one."""
    s = dict(ch['set']) if ch['set'] else {}
    if s.get('type') == 1:
        s['type'] = 0
    return {'set': s, 'del': ch['del'], 'kind': ch['kind']}


def raw(tr, fmt):
    """Header values under their documented names in the file, read with ObsPy."""
    out = {}
    for f, (q, sac) in TABLE.items():
        if fmt == 'SAC':
            if sac not in tr.stats.sac:
                continue
            x = tr.stats.sac[sac]
            if f in TIMES:
                x = get_sac_reftime(tr.stats.sac) + float(x)
        elif q == 'COMMENT':
            try:
                x = json.loads(tr.stats.sh.get('COMMENT', '{}'))[f]
            except KeyError:
                continue
        elif q in tr.stats.sh:
            x = tr.stats.sh[q]
        else:
            continue
        out[f] = observe(f, x)
    return out


def case(g):
    c = g['c']
    dt = [float, 'float32', int, 'int32'][c['dtype']]
    st = rf.RFStream([mk.trace(np.array(t['data'], dt), c['delta'], t['start'], id='%s.%s.%s.%s%s' % (c['net'], t['sta'], t['loc'], t['cha'], t['comp'])) for t in g['traces']])
    e = {'ids': [tr.id for tr in st], 'starts': [t['start'] for t in g['traces']], 'delta': c['delta'], 'data': [t['data'] for t in g['traces']], 'steps': []}
    key = {(tr.id, t['start'] // 40000): i for i, (tr, t) in enumerate(zip(st, g['traces']))}
    order = list(range(len(st)))       # trace i of the case is st[order.index(i)]
    for s in g['steps']:
        s['changes'] = [norm(ch) for ch in s['changes']]
        obs = {'fmt': s['fmt'], 'changes': s['changes'], 'cut': s['cut'], 'out': [], 'exc': ''}
        e['steps'].append(obs)
        for tr, i in zip(st, order):
            ch = s['changes'][i]
            for f, v in ch['set'].items():
                tr.stats[f] = value(f, v, ch['kind'])
            for f in ch['del']:
                tr.stats.pop(f, None)
            cut = min(s['cut'], len(tr) - 1)
            if cut:
                tr.trim(tr.stats.starttime + cut * tr.stats.delta)
        raws = {}
        try:
            st = roundtrip(st, s, raws)
        except kit.CaseTimeout:
            raise
        except Exception as ex:
            obs['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:150]
            break
        for tr in st:
            h = {f: observe(f, tr.stats[f]) for f in FIELDS if f in tr.stats and tr.stats[f] is not None}
            obs['out'].append({'id': tr.id, 'start': (tr.stats.starttime._ns - mk.NS0 + 500000) // 1000000, 'delta': int(round(tr.stats.delta * 1000)), 'data': mk.ints(tr.data), 'h': h,
                               'raw': raws.get((tr.id, tr.stats.starttime._ns), {})})
        try:
            order = [key[tr.id, ((tr.stats.starttime._ns - mk.NS0) // 1000000 + 5) // 40000] for tr in st]
            assert sorted(order) == list(range(len(e['ids'])))
        except Exception:
            break
    return e


def roundtrip(st, s, raws):
    fmt = s['fmt'][0] if s['fmt'] in ('Q', 'QC') else s['fmt']
    name = fmt.lower() if s['low'] else fmt
    kw = {'sh_compat': True} if s['fmt'] == 'QC' else {}
    ext = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}[fmt]
    how = s['how']
    if fmt == 'H5' and not all('event_time' in tr.stats and tr.stats.get('type') == 'rf' for tr in st):
        how = 'whole'       # one file has one index
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'file')
        if how == 'whole':
            if len(st) > 1 or fmt != 'SAC':
                st.write(fn + (ext if s['ext'] else ''), name, **kw)
            else:
                st.write(fn + '.SAC', name, **kw)
        else:
            for i, tr in enumerate(st):
                if fmt == 'H5':
                    (tr if how == 'each' else rf.RFStream([tr])).write(fn + '.h5', name, mode='a')
                else:
                    (tr if how == 'each' else rf.RFStream([tr])).write('%s%02d%s' % (fn, i, ext), name, **kw)
        files = sorted(f for f in glob.glob(fn + '*') if not f.endswith('.QBN'))
        kw = {'format': name} if s['readfmt'] else {}
        if fmt != 'H5':
            for f in files:
                for tr in obspy.read(f):
                    raws[tr.id if fmt == 'SAC' else '.'.join(tr.stats.station.split('.')[:3]) + '.' + tr.stats.channel, tr.stats.starttime._ns] = raw(tr, fmt)
        if len(files) > 1 and s['ext']:
            return read_rf(os.path.join(d, '*' + ('.QHD' if fmt == 'Q' else '')), **kw)
        out = rf.RFStream()
        for f in files:
            out = out + read_rf(f, **kw)
        return out


def run(ctx):
    ctx.model_check('FormatsMC', must_cover=('Set', 'Unset', 'WriteRead'))
    ctx.refute('FormatsMC', 'FormatsBad_stale', 'Roundtrip')
    cases = ctx.generate('FormatsGen', num=ctx.pick(900, 12000), depth=8)
    evs = [e for e in kit.pmap(ctx, case, cases, limit=60) if e]
    ctx.validate('FormatsTrace', evs)
    ctx.notes['steps'] = sum(len(e['steps']) for e in evs)
    ctx.notes['formats'] = {f: sum(s['fmt'] == f for e in evs for s in e['steps']) for f in ('SAC', 'Q', 'QC', 'H5')}
    ctx.sample(*[{'ids': e['ids'], 'formats': [s['fmt'] for s in e['steps']]} for e in evs[:3]])
    ctx.assumptions.append('traces of one stream differ in id or start time by more than the resolution of the HDF5 index (otherwise obspyh5 warns and overwrites)')
