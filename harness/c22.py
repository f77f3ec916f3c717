"""C22 options left out, spelled and given."""
import os
import tempfile
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
import obspy
from obspy import UTCDateTime as UTC, Stream
from obspy.core.inventory import Inventory, Network, Station, Channel
from rf import imaging, deconvolve as D
from rf.deconvolve import deconvolve
from rf.harmonics import harmonics
from rf.profile import get_profile_boxes, profile
from rf.rfstream import RFStream, RFTrace, read_rf, rfstats
from rf.simple_model import SimpleModel, load_model
from rf.util import IterMultipleComponents, iter_event_data
import kit
import mk
import seismo

INFO = (('back_azimuth', 'baz (\N{DEGREE SIGN})', 'C0'), ('distance', 'dist (\N{DEGREE SIGN})', 'C3'))


# -- comparable form of results: a text and numbers

def num(out, a):
    a = np.asarray(a)
    if a.dtype.kind == 'c':
        num(out, a.real)
        a = a.imag
    out[0].append('a%s' % (a.shape,))
    out[1].append(np.ravel(a).astype(float))


def flat(x, out):
    if isinstance(x, (Stream, RFStream)):
        out[0].append('%s%d' % (type(x).__name__, len(x)))
        for tr in x:
            flat(tr, out)
    elif isinstance(x, obspy.Trace):
        out[0].append(tr_id(x))
        num(out, x.data)
        flat({k: v for k, v in x.stats.items() if k not in ('processing', 'sac', 'sh', '_format', 'h5')}, out)
    elif isinstance(x, SimpleModel):
        for n in ('z', 'vp', 'vs', 'dz'):
            num(out, getattr(x, n))
    elif hasattr(x, 'items'):
        for k in sorted(x):
            out[0].append(str(k))
            flat(x[k], out)
    elif isinstance(x, UTC):
        num(out, x - mk.T0)
    elif isinstance(x, np.ndarray):
        num(out, x)
    elif isinstance(x, (bool, np.bool_, str, type(None))):
        out[0].append(repr(x))
    elif isinstance(x, (int, float, np.number)):
        num(out, x)
    elif isinstance(x, (list, tuple)):
        out[0].append('s%d' % len(x))
        for y in x:
            flat(y, out)
    elif hasattr(x, 'exterior'):
        num(out, x.exterior.coords)
    elif isinstance(x, Figure):
        num(out, x.get_size_inches())
        num(out, x.get_dpi())
        for ax in x.axes:
            axes(ax, out)
    else:
        raise kit.MachineryError('result %s' % type(x))
    return out


def tr_id(tr):
    return tr.id


def axes(ax, out):
    out[0] += [ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), type(ax).__name__]
    num(out, ax.get_position().bounds)
    num(out, ax.get_xlim() + ax.get_ylim())
    for axis in (ax.xaxis, ax.yaxis):
        flat([any(g.get_visible() for g in axis.get_gridlines()), [t.get_text() for t in axis.get_ticklabels()], [float(t) for t in axis.get_ticklocs()]], out)
    for a in ax.get_children():
        n = type(a).__name__
        out[0].append(n)
        if hasattr(a, 'get_xydata'):
            num(out, a.get_xydata())
            num(out, matplotlib.colors.to_rgba(a.get_color()))
        elif hasattr(a, 'get_offsets'):
            num(out, a.get_offsets())
            num(out, a.get_facecolor())
            for p in a.get_paths():
                num(out, p.vertices)
        elif hasattr(a, 'get_text') and hasattr(a, 'get_position'):
            out[0].append(a.get_text())
            num(out, a.get_position())
        elif n == 'FeatureArtist':
            for p in a._feature.geometries():
                num(out, (p.exterior if hasattr(p, 'exterior') else p).coords)
        elif hasattr(a, 'get_width') and hasattr(a, 'get_xy'):
            num(out, tuple(a.get_xy()) + (a.get_width(), a.get_height()))


def equal(a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    for x, y in zip(a[1], b[1]):
        if x.shape != y.shape:
            return False
        if not np.allclose(x, y, rtol=1e-6, atol=1e-9 * max([1e-3] + list(np.abs(x[np.isfinite(x)]))), equal_nan=True):
            return False
    return True


# -- what the operations are applied to

def wave(seed, n, k0):
    rnd = np.random.RandomState(seed)
    d = rnd.randint(-3, 4, n).astype(float)
    pulse = np.array([20., 90, 140, 60, -80, -120, -40, 10])
    for k, f in ((k0, 1.), (k0 + 24, .4), (k0 + 40, -.2)):
        d[k:k + 8] += f * pulse[:max(0, min(8, n - k))]
    return d


def header(k, S=False, dist=60.):
    return {'station_latitude': 10. + k, 'station_longitude': 20. - k, 'station_elevation': 300., 'event_latitude': 40., 'event_longitude': 80., 'event_depth': 20., 'event_magnitude': 6.1, 'event_time': mk.at(-600000 + k * 1000),
            'event_id': 'smi:local/ev%d' % k, 'distance': dist, 'back_azimuth': 40. + 37 * k, 'inclination': 25. + k, 'slowness': 10.5 + .3 * k if S else 5.7 + .3 * k, 'phase': 'S' if S else 'P'}


def record(comps, k, S=False, seed=0, n=600, delta=250, off=60000, **kw):
    """A record whose traces start 60 s before the onset."""
    st = RFStream()
    for i, c in enumerate(comps):
        j = 'QR'.find(c) >= 0 if S else 'LZ'.find(c) >= 0
        tr = mk.trace(wave(100 * seed + 10 * k + i, n, off // delta) * (1 if j else .5), delta, 1000000 * k, onset=1000000 * k + off, id='XX.AA..BH' + c, **header(k, S))
        tr.stats.update(kw)
        st.append(tr)
    return st


def rfs(n, comps, S=False, seed=0, **kw):
    st = RFStream()
    for k in range(n):
        st += record(comps, k, S, seed, n=200, off=20000, **kw)
    st.type = 'rf'
    return st


def inventory():
    return Inventory([Network('XX', [Station('S%d' % i, 10. + i, 20. + i / 2., 0.) for i in range(3)])], source='x')


def model(tmp):
    fn = os.path.join(tmp, 'other.dat')
    with open(fn, 'w') as f:
        f.write('#test model\n#depth vp vs n\n0 6.0 3.5 0\n30 6.0 3.5 6\n30 7.9 4.5 0\n300 8.2 4.6 20\n300 8.5 4.8 0\n900 9.5 5.3 30\n')
    return fn


def plotted(f):
    try:
        x = f()
        return x.figure if hasattr(x, 'get_xlim') else x if isinstance(x, Figure) else plt.gcf()
    finally:
        plt.close('all')


def op(name, v, env):
    """-> function of the arguments"""
    tmp = env['TMP']
    P = name.endswith('P')
    if name == 'rfstats':
        e = {'t': 0, 'lat': 0, 'lon': 1000 * (40, 60, 80, 89)[v], 'depth': 20000, 'mag': 60, 'pref': False, 'prefmag': False}
        s = {'lat': 1000, 'lon': 0, 'elev': 10, 'form': 0}
        ev, sta = seismo.event(e, 0), seismo.station(s)
        if v % 2:
            return lambda *a, **k: rfstats(None, ev, sta, *a, **k)
        h = dict(seismo.event_header(e, 0), **seismo.station_header(s))
        st = RFStream([mk.trace([1., 2, 3], 1000, 0, **h) for _ in range(2)])
        st[1].stats.station_latitude = 5.
        return lambda *a, **k: rfstats(st, None, None, *a, **k)
    if name.startswith('moveout'):
        st = rfs(2, 'LQ', not P, v)
        return lambda *a, **k: st.moveout(*a, **k)
    if name.startswith('ppoints'):
        st = rfs(2, 'LQ', not P, v)
        return lambda *a, **k: [st.ppoints(*a, **k), st]
    if name in ('rfP', 'rfS'):
        st = record('ZNE', 0, not P, v) + record('ZNE', 1, not P, v)
        return lambda *a, **k: st.rf(*a, **k)
    if name in ('dTime', 'dWater', 'dIter', 'dMulti'):
        st = record('LQT', 0, False, v)
        if v % 2:
            return lambda *a, **k: st.deconvolve(*a, **k)
        return lambda *a, **k: deconvolve(st, *a, **k)
    if name in ('aTime', 'aWater', 'aIter', 'aMulti'):
        rsp = [wave(v + 5, 300, 100), wave(v + 6, 300, 120)]
        src = wave(v + 5, 300, 100)
        src[:80] = src[150:] = 0
        nse = [wave(v + 7, 300, 290), wave(v + 8, 300, 290)]
        if name == 'aTime':
            return lambda *a, **k: D.deconv_time(rsp, src, *a, **k)
        if name == 'aMulti':
            return lambda *a, **k: D.deconv_multitaper(rsp, src[60:180], nse, 4., *a, **k)
        return lambda *a, **k: {'aWater': D.deconv_waterlevel, 'aIter': D.deconv_iterative}[name](rsp, src, 4., *a, **k)
    if name == 'boxes':
        return lambda *a, **k: get_profile_boxes((10., 20. + v), 30. * v, [0, 10, 20, 50], *a, **k)
    if name == 'profile':
        boxes = get_profile_boxes((10., 20.), 40., np.linspace(0, 300, 5), width=300)
        st = rfs(6, 'LQ', False, v)
        for i, tr in enumerate(st):
            tr.stats.update({'pp_latitude': 10. + .25 * (i // 2), 'pp_longitude': 20. + .2 * (i // 2)})
        return lambda *a, **k: (st.profile if v % 2 else lambda *b, **c: profile(st, *b, **c))(boxes, *a, **k)
    if name in ('harmR', 'harmRT'):
        st = rfs(7, 'RT', False, v)
        return lambda *a, **k: (st.harmonics if v % 2 else lambda *b, **c: harmonics(st, *b, **c))(*a, **k)
    if name in ('trim2', 'slice2'):
        st = record('ZNE', 0, False, v, n=400) + record('Z', 0, False, v, n=9, off=1000)
        return lambda *a, **k: getattr(st, name)(*a, **k)
    if name == 'groups':
        st = record('ZNE', 0, False, v) + record('ZN', 1) + record('ZNE', 2)
        return lambda *a, **k: [list(IterMultipleComponents(st, *a, **k)), len(IterMultipleComponents(st, *a, **k))]
    if name == 'eventdata':
        ev = seismo.event({'t': 0, 'lat': 0, 'lon': 1000 * (40, 60, 80, 89)[v], 'depth': 20000, 'mag': 60, 'pref': False, 'prefmag': False}, 0)
        inv = Inventory([Network('XX', [Station('AA', 1., 0., 3., channels=[Channel('BH' + c, '', 1., 0., 10., 0.) for c in 'ZNE'])])], source='x')

        def events(*a, **k):
            req = []

            def data(network, station, location, channel, starttime, endtime):
                req.append([network, station, location, channel, starttime, endtime])
                n = int(round(endtime - starttime)) + 1
                return Stream([obspy.Trace(np.arange(n) * 1., {'network': network, 'station': station, 'channel': channel[:-1] + c, 'starttime': starttime}) for c in 'ZNE'])
            return [list(iter_event_data([ev], inv, data, *a, **k)), req]
        return events
    if name.startswith(('write', 'read')):
        fmt = name[5:] if name.startswith('write') else name[4:]
        st = rfs(2, 'LQ', False, v)
        dest = tempfile.mkdtemp(dir=tmp)
        fn = os.path.join(dest, 'x' + {'Q': '', 'SAC': '', 'H5': '.h5'}[fmt])
        if name.startswith('write'):
            def write(*a, **k):
                for f in os.listdir(dest):
                    os.remove(os.path.join(dest, f))
                st.write(fn, fmt, *a, **k)
                return [sorted(os.listdir(dest)), read_rf(os.path.join(dest, '*.QHD' if fmt == 'Q' else '*'))]
            return write
        st.write(fn, fmt)
        path = os.path.join(dest, '*.QHD' if fmt == 'Q' else '*')
        return lambda *a, **k: read_rf(path, *a, **k)
    if name == 'loadmodel':
        return load_model
    if name == 'mmoveout':
        st = rfs(2, 'LQ', False, v)
        return lambda *a, **k: [load_model().moveout(st, *a, **k), st]
    m = load_model(env['MODEL'] if v % 2 else 'iasp91')
    if name == 'mstretch':
        return lambda *a, **k: m.stretch_delay_times(6. + v / 4., *a, **k)
    if name == 'mdelay':
        return lambda *a, **k: m.calculate_delay_times(6. + v / 4., *a, **k)
    if name == 'mvertical':
        return lambda *a, **k: m.calculate_vertical_slowness(6. + v / 4., *a, **k)
    if name == 'mppoint':
        tr = record('L', 0)[0]
        return lambda *a, **k: m.ppoint(tr.stats, 40. + v, *a, **k)
    if name == 'mdistance':
        return lambda *a, **k: m.ppoint_distance(40. + v, 6.5, *a, **k)
    if name == 'plotrf':
        st = rfs(3, 'L', False, v)
        return lambda *a, **k: plotted(lambda: (st.plot_rf if v % 2 else lambda *b, **c: imaging.plot_rf(st, *b, **c))(*a, **k))
    if name == 'plotprofile':
        st = rfs(3, 'L', False, v)
        for i, tr in enumerate(st):
            tr.stats.update({'box_pos': 5. + 10 * i, 'box_length': 10., 'num': 3 + i, 'moveout': 'Ps', 'slowness': 6.4})
        return lambda *a, **k: plotted(lambda: (st.plot_profile if v % 2 else lambda *b, **c: imaging.plot_profile(st, *b, **c))(*a, **k))
    if name == 'plotharm':
        hd = rfs(7, 'RT', False, v).harmonics(components='RT')
        return lambda *a, **k: plotted(lambda: imaging.plot_harmonics(hd, *a, **k))
    inv, pts, boxes = inventory(), [(10.2, 20.1), (11., 21.)], get_profile_boxes((10., 20.), 30., [0, 50, 100], width=60)
    return lambda *a, **k: plotted(lambda: {'plotpp': imaging.plot_ppoints, 'plotsta': imaging.plot_stations, 'plotmap': imaging.plot_profile_map}[name]({'plotpp': pts, 'plotsta': inv, 'plotmap': boxes}[name], *a, **k))


def case(g):
    seismo.fast()
    warnings.simplefilter('ignore')
    e = {'op': g['op'], 'calls': [], 'what': [], 'exc': []}
    with tempfile.TemporaryDirectory() as tmp:
        env = {'T0': mk.T0, 'TMP': tmp, 'MODEL': model(tmp)}
        texts = ' '.join(v for c in g['calls'] for v in c['vals'])
        if 'CRS' in texts:
            import cartopy.crs as ccrs
            env['CRS'] = ccrs.AzimuthalEquidistant(25., 5.)
        if 'INV' in texts:
            env['INV'] = inventory()
        if 'PP' in texts:
            env['PP'] = [(10.3, 20.6), (10.6, 20.2)]
        if 'HD2' in texts:
            env['HD2'] = rfs(7, 'RT', False, 9).harmonics(components='RT')
        if 'NOISE' in texts:
            env['NOISE'] = record('LQT', 0, False, 30 + g['input'])[:].trim2(-60, -5, 'onset')
            env['NOISE0'] = record('LQT', 0, False, g['input']).trim2(-60, -5, 'onset')
        objects, results = {}, []
        for c in g['calls']:
            a, k = [], {}
            for i, (n, v) in enumerate(zip(g['names'], c['vals'])):
                if v == '':
                    continue
                if v not in objects:
                    objects[v] = eval(v, dict(env))
                if i < c['np']:
                    a.append(objects[v])
                else:
                    k[n] = objects[v]
            before = [(v, repr(x)) for v, x in objects.items()] + [repr(sorted(k.items(), key=lambda x: x[0]))]
            d = {'vals': c['vals'], 'res': 0, 'kept': True}
            f = op(g['op'], g['input'], env)
            exc = ''
            try:
                r = flat(f(*a, **k), [[], []])
                for j, q in enumerate(results if r[1] else []):
                    if equal(q, r):
                        d['res'] = j + 1
                        break
                else:
                    if r[1]:        # anything at all
                        results.append(r)
                        d['res'] = len(results)
            except (kit.CaseTimeout, kit.MachineryError):
                raise
            except Exception as ex:
                exc = kit.exc_name(ex) + ' ' + str(ex)[:80]
            d['kept'] = before == [(v, repr(x)) for v, x in objects.items()] + [repr(sorted(k.items(), key=lambda x: x[0]))]
            e['calls'].append(d)
            e['exc'].append(exc)
            e['what'].append('%s(%s)' % (g['op'], ', '.join([v for i, v in enumerate(c['vals']) if i < c['np']] + ['%s=%s' % (n, v) for i, (n, v) in enumerate(zip(g['names'], c['vals'])) if i >= c['np'] and v != ''])))
    return [e]


def run(ctx):
    ctx.model_check('Defaults', must_cover=('Call', 'CallWithObject'))
    for f, inv in (('falsy', 'Given'), ('early', 'Default'), ('sticky', 'Default'), ('consumed', 'Given')):
        ctx.refute('Defaults', 'DefaultsBad_' + f, inv)
    cases = ctx.generate('DefaultsAll') + ctx.generate('DefaultsGen', num=ctx.pick(600, 20000), depth=9)
    evs = [x for r in kit.pmap(ctx, case, cases, limit=200) for x in r]
    ctx.validate('DefaultsTrace', evs)
    ctx.notes['calls'] = sum(len(e['calls']) for e in evs)
    ctx.notes['refused'] = sum(1 for e in evs for x in e['exc'] if x)
    ctx.notes['results_compared'] = sum(1 for e in evs for d in e['calls'] if d['res'])
    ctx.sample(*[e['what'] for e in evs[:4]])
    ctx.assumptions.append('results are the same if headers, texts and shapes are equal and numbers agree to a relative 1e-6')
