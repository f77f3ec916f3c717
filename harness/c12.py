"""C12 independence from the history of the process."""
import hashlib
import itertools
import os
import tempfile
import warnings
import numpy as np
import kit
import mk

WORK = None


def digest(x):
    h = hashlib.sha1()

    def put(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.dtype).encode() + str(x.shape).encode() + np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (list, tuple)):
            h.update(b'(')
            for y in x:
                put(y)
            h.update(b')')
        elif hasattr(x, 'traces'):
            h.update(type(x).__name__.encode())
            for tr in x:
                put(tr.data)
                put(tr.stats)
        elif hasattr(x, 'items'):
            for k in sorted(map(str, x.keys())):
                if k not in ('_format', 'sac', 'sh', 'mseed'):
                    h.update(k.encode())
                    put(x[k])
        else:
            h.update(repr(x).encode())
    put(x)
    return h.hexdigest()[:16]


def spoil(x):
    """What a user may do with a result later on."""
    if isinstance(x, np.ndarray):
        x[...] = -1
    elif isinstance(x, tuple) or isinstance(x, list):
        for y in x:
            spoil(y)
    elif hasattr(x, 'traces'):
        for tr in x:
            tr.data[...] = 0
            tr.stats.onset = mk.T0
            tr.stats.slowness = 1.
            tr.stats.station = 'GONE'
            tr.stats.setdefault('processing', []).append('spoilt')
        del x.traces[1:]
    elif hasattr(x, 'items') and hasattr(x, 'clear'):
        for k in ('slowness', 'onset', 'station_latitude'):
            if k in x:
                x[k] = 0


def stream(k, n=41):
    import rf
    trs = []
    for i in range(3):
        for c in 'QT' if k != 2 else 'Q':
            j = np.arange(n)
            h = dict(slowness=5. + i + k, back_azimuth=40. * i, inclination=20. + i, station_latitude=10. + k, station_longitude=20. + i,
                     event_time=mk.at(-600000 + 60000 * i), event_latitude=1. * i, event_longitude=2., event_depth=33.,
                     event_magnitude=6., distance=60., phase='S' if k == 1 else 'P', type='rf')
            if k == 2:
                h.update(type='profile', box_pos=10. * i, box_length=10., num=i)
                del h['event_time']
            if k == 3:
                del h['type']
            trs.append(mk.trace(np.sin(j * (i + 1) / 7.) + 0.01 * j * (k + 1), 500, 1000 * i, 1000 * i + 10000, id='XX.ST%d..BH%s' % (i if k else 0, c), **h))
    return rf.RFStream(trs)


def raw(k):
    import rf
    trs = []
    for i, c in enumerate('ZNE'):
        j = np.arange(120)
        d = np.exp(-((j - 40) / 3.) ** 2) * (1, .3, .2)[i] + .3 * np.exp(-((j - 55 - k) / 3.) ** 2) * (.1, 1, .5)[i]
        trs.append(mk.trace(d, 500, 0, 20000, id='XX.STA..BH' + c, slowness=6.4, back_azimuth=30. + k, inclination=25., phase='P',
                            event_time=mk.at(-600000)))
    return rf.RFStream(trs)


def model_path(name):
    if name == 'iasp91':
        return name
    return os.path.join(WORK, name, 'model.dat')     # models of one name in different folders


def call(c):
    """-> (name of the call with all its arguments, result)"""
    import rf
    from rf.simple_model import load_model
    from rf.util import minimal_example_rf, minimal_example_Srf
    f = c['f']
    ref, slow = c['ref'] / 100., c['slow'] / 100.

    def name(*keys):
        return f + ''.join(' %s=%s' % (k, c[k]) for k in keys)
    if f == 'moveout':
        return name('k', 'ph', 'ref', 'model'), lambda: stream(c['k']).moveout(c['ph'], ref, model_path(c['model']))
    if f == 'mo_obj':
        return name('k', 'ph', 'ref', 'model'), lambda: load_model(model_path(c['model'])).moveout(stream(c['k']), c['ph'], ref)
    if f == 'delays':
        return name('slow', 'ph', 'model'), lambda: load_model(model_path(c['model'])).calculate_delay_times(slow, c['ph'])
    if f == 'stretch':
        return name('slow', 'ph', 'ref', 'model'), lambda: load_model(model_path(c['model'])).stretch_delay_times(slow, c['ph'], ref)
    if f == 'ppoints':
        def run():
            st = stream(c['k'])
            r = st.ppoints(c['depth'], c['ph'][1] if c['arg'] else None, model_path(c['model']))
            return [r, st]
        return name('k', 'depth', 'ph', 'arg', 'model'), run
    if f == 'ppdist':
        return name('depth', 'slow', 'arg', 'model'), lambda: load_model(model_path(c['model'])).ppoint_distance(c['depth'], slow, 'PSps'[c['arg']])
    if f == 'load':
        def run():
            m = load_model(model_path(c['model']))
            return [np.array(m.z), np.array(m.dz), np.array(m.vp), np.array(m.vs)]
        return name('model'), run
    if f == 'example':
        return name(), minimal_example_rf
    if f == 'exampleS':
        return name(), minimal_example_Srf
    if f == 'read':
        return name(), rf.read_rf
    if f == 'rfstats':
        ph = 'PS'[c['arg'] % 2]

        def run():
            st = rf.read_rf()[:3]
            return rf.rfstats(st, phase=ph)
        return name('arg'), run
    if f == 'rfstats1':
        def run():
            # nearly equal geometries: calls that a cache with a coarse key would mix up
            s = dict(event_latitude=5., event_longitude=0., event_depth=c['depth'] + .04 * (c['k'] // 2), event_time=mk.T0,
                     event_magnitude=5., station_latitude=0., station_longitude=60. + [0, .004, .3, 20][c['arg']], station_elevation=0.)
            return rf.rfstats(mk.trace(np.zeros(2), **s).stats, phase='P' if c['ph'] != 'Sp' else 'S', tt_model=['iasp91', 'ak135'][c['k'] % 2])
        return name('arg', 'k', 'depth') + str(c['ph'] == 'Sp'), run
    if f in ('write', 'badwrite'):
        def run():
            st = stream(c['k'])
            d = tempfile.mkdtemp()
            kw = {'sh_compat': True} if c['fmt'] == 'Q' and c['arg'] == 3 else {}
            if f == 'badwrite':
                fn = os.path.join(d, 'missing', 'f')
                if c['fmt'] == 'H5':
                    fn += '.h5'
                try:
                    st.write(fn, c['fmt'], **kw)
                finally:
                    if digest(st) != digest(stream(c['k'])):
                        return ['stream changed']
                return None
            fn = os.path.join(d, 'f' + ('.h5' if c['fmt'] == 'H5' else ''))
            if c['fmt'] == 'SAC':
                st.traces = st.traces[:1]
            st.write(fn, c['fmt'], **kw)
            if c['fmt'] == 'Q':
                fn = fn + '.QHD'
            out = rf.read_rf(fn, c['fmt'])
            if c['fmt'] == 'H5':
                return [paths(fn), st, sorted(digest([tr.data, tr.stats]) for tr in out)]
            return [st, out]
        return name('k', 'fmt') + (' sh' if c['fmt'] == 'Q' and c['arg'] == 3 else ''), run
    if f == 'plainh5':
        def run():      # somebody else uses HDF5 files in the same process
            import obspy
            fn = os.path.join(tempfile.mkdtemp(), 'f.h5')
            st = obspy.Stream([obspy.Trace(data=np.arange(3.), header={'station': 'PLN', 'channel': 'HHZ', 'starttime': mk.T0})])
            st.write(fn, 'H5')
            return paths(fn)
        return name(), run
    if f == 'badmoveout':
        return name('k', 'model'), lambda: stream(c['k']).moveout('Psp', ref, model_path(c['model']))
    if f == 'badpp':
        return name('k', 'model'), lambda: stream(c['k']).ppoints(99999, None, model_path(c['model']))
    if f == 'badmodel':
        return name('k'), lambda: stream(c['k']).moveout(model='no/such/file')
    if f == 'badstats':
        def run():
            import obspy.core.event as ev
            return rf.rfstats(event=ev.Event(), station={'latitude': 1., 'longitude': 1., 'elevation': 1.})
        return name(), run
    if f == 'rf':
        m = ['time', 'waterlevel', 'iterative', 'multitaper'][c['arg']]

        def run():
            st = raw(c['k'])
            st.rf(deconvolve=m, rotate='NE->RT' if c['slow'] == 480 else 'ZNE->LQT', winsrc=(-5, 10, 2))
            return st
        return name('arg', 'k') + str(c['slow'] == 480), run
    if f == 'badrf':
        return name(), lambda: raw(0).rf(deconvolve='magic')
    if f == 'harmonics':
        return name('k', 'arg'), lambda: stream(c['k']).harmonics(components='Q', azim=30. * c['arg'], method='time')
    if f == 'boxes':
        return name('arg', 'depth'), lambda: [[b['poly'].wkt, b['pos'], b['length'], list(b['latlon'])] for b in rf.get_profile_boxes(
            (10, 20), 30. * c['arg'], np.linspace(0, 100 + c['depth'], 5), width=100)]
    if f == 'profile':
        def run():
            st = stream(0)
            st.ppoints(50)
            return st.profile(rf.get_profile_boxes((10, 20), 30. * c['arg'], np.linspace(-100, 100, 5), width=500))
        return name('arg'), run
    if f == 'stack':
        return name('k'), lambda: sorted(stream(c['k']).stack(), key=lambda tr: tr.id) and digest(
            sorted(digest([t.data, t.stats]) for t in stream(c['k']).stack()))
    if f == 'group':
        from rf.util import IterMultipleComponents
        return name('k'), lambda: [s for s in IterMultipleComponents(stream(c['k']), 'onset', 2)]
    if f == 'hdr':          # header class attributes and defaults used by traces
        def run():
            tr = rf.RFStream(stream(c['k']))[0]
            tr.stats.box_pos = 1.
            return [str(tr), tr.stats, rf.RFStream([tr]).type, str(rf.rfstream.RFTrace(np.zeros(3)))]
        return name('k'), run
    raise AssertionError(f)


def paths(fn):
    import h5py
    out = []
    with h5py.File(fn, 'r') as f:
        f.visititems(lambda n, o: out.append(n) if isinstance(o, h5py.Dataset) else None)
    return sorted(out)


def perform(c):
    n, run = call(c)
    warnings.simplefilter('ignore')
    try:
        r = run()
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        return n, None, 'raised ' + kit.exc_name(ex)
    return n, r, digest(r)


def fresh(c):
    n, r, d = perform(c)
    return [{'op': 'fresh', 'call': n, 'res': d}]


def history(hc):
    i, h = hc
    out = []
    kept = []
    for j, c in enumerate(h):
        n, r, d = perform(c)
        out.append({'op': 'call', 'call': n, 'res': d, 'hist': i, 'at': j, 'indep': True,
                    'before': [x['call'] for x in out]})
        kept.append((out[-1], r, d, c['spoil']))
        if c['spoil']:
            spoil(r)
    for e, r, d, sp in kept:     # results that nobody touched are still what they were
        if r is not None and not sp:
            e['indep'] = digest(r) == d
    return out


def run(ctx):
    global WORK
    WORK = ctx.scratch('models')
    for name, dv in (('A', 0), ('B', .5)):
        os.makedirs(os.path.dirname(model_path(name)), exist_ok=True)
        with open(model_path(name), 'w') as f:
            f.write('# model\n 0.00  %.2f %.2f 0\n' % (5.8 + dv, 3.36))
            for z, vp, vs, n in ((0, 5.8, 3.36, 0), (40, 6.5, 3.7, 7), (40, 8, 4.5, 0), (400, 8.9 + dv, 4.8, 30), (800, 11, 6, 20)):
                f.write('%.2f %.3f %.3f %d\n' % (z, vp, vs, n))
    ctx.model_check('History', must_cover=('Moveout', 'Example', 'Write', 'Plain'))
    for f in ('key', 'alias', 'norestore'):
        ctx.refute('History', 'HistoryBad_' + f, 'Independent')
    hs = ctx.generate('HistoryGen', num=ctx.pick(200, 4000), depth=30)
    first = {}
    for h in hs:
        for c in h:
            first.setdefault(call(c)[0], c)
    evs = list(itertools.chain.from_iterable(kit.pmap(ctx, fresh, first.values(), own_process=True)))
    evs += list(itertools.chain.from_iterable(kit.pmap(ctx, history, enumerate(hs), own_process=True)))
    ctx.validate('HistoryTrace', evs, key=lambda e: e['call'])
    ctx.notes['distinct_calls'] = len(first)
    ctx.notes['calls_in_histories'] = sum(map(len, hs))
    ctx.sample(*[e for e in evs if e['op'] == 'call' and e['at'] == 3][:2])
