"""C19 operations change only their target and log themselves once."""
import itertools
import re
import numpy as np
import rf
from rf.util import IterMultipleComponents
import c12
import kit
import mk

ENTRY = re.compile(r'^rf [^:]*: (\w+)\((.*)\)$', re.S)


def new(o):
    """raw: records of three components; rf: receiver functions"""
    trs = []
    for i in range(o['n']):
        for k, c in enumerate('ZNE' if o['kind'] == 'raw' and o['a'] != 1 else 'LQT' if o['a'] % 2 else 'QT'):
            j = np.arange(160)
            d = np.exp(-((j - 60) / 3.) ** 2) * (1, .3, .2)[k] + .3 * np.exp(-((j - 75 - i) / 3.) ** 2) * (.1, 1, .5)[k] + .01 * np.sin(j * (i + k + 1.))
            h = dict(slowness=6. + .2 * i, back_azimuth=40. * i + 10, inclination=20. + i, station_latitude=10., station_longitude=20. + i % 2,
                     station_elevation=0., event_time=mk.at(-600000 + 60000 * i), event_latitude=1. * i, event_longitude=80., event_depth=33.,
                     event_magnitude=6., distance=60., phase=o['pol'])
            if o['kind'] == 'rf':
                h['type'] = 'rf'
            tr = mk.trace(d, 500, 600000 * i, 600000 * i + 30000, id='XX.ST%d..BH%s' % (i % 2, c), **h)
            if o['b'] == 1:
                tr.stats.processing = ['entry of somebody else']
            trs.append(tr)
    if o['b'] > 1:      # components and records in another order
        trs = trs[::-1] if o['b'] == 2 else trs[1::2] + trs[::2]
    return rf.RFStream(trs)


def state(h, st):
    out = []
    for tr in st:
        names, args = [], []
        for p in tr.stats.get('processing', []):
            m = ENTRY.match(p)
            if m:
                names.append(m.group(1))
                args = m.group(2).split('::')
        out.append({'dig': c12.digest([tr.id, tr.data, tr.stats]), 'hist': names, 'args': args,
                    'comp': tr.id[-1], 'key': '%s %s %s' % (tr.id.rsplit('.', 1)[0], tr.stats.get('event_time', ''), tr.stats.get('box_pos', ''))})
    return {'h': h, 'traces': out}


WIN = [(-10, 25), (-8, 22), (None, 21), (-12, None)]


def perform(st, o, d):
    """-> (result stream or None, expected parts of the entry)"""
    op, a, b = o['op'], o['a'], o['b']
    if op == 'copy':
        return st.copy(), []
    if op == 'iterate':
        for s in IterMultipleComponents(st, [None, 'onset', 'starttime', 'station'][a], [None, 2, (2, 3), 3][b]):
            [tr.id for tr in s]
        return None, []
    if op == 'write':
        fmt = ['SAC', 'Q', 'H5', 'Q'][a]
        fn = '%s/f%d' % (d, b) + ('.h5' if fmt == 'H5' else '')
        st.write(fn, fmt, **({'sh_compat': True} if a == 3 else {'override': 'ignore'} if fmt == 'H5' and b else {}))
        return None, []
    if op == 'str':
        str(st), repr(st), st.type, st.method, [str(tr) for tr in st]
        return None, []
    if op == 'edit':
        for tr in st:
            tr.stats.slowness = 6.5
            tr.stats.setdefault('processing', []).append('entry of the user')
        return None, []
    if op == 'editdata':
        for tr in st:
            tr.data *= 1.5
        return None, []
    if op == 'slice2':
        return st.slice2(*WIN[a], reftime='onset', keep_empty_traces=b == 1), []
    if op == 'trim2':
        st.trim2(*WIN[a], reftime='onset')
        return None, []
    if op == 'rf':
        kw = [{}, {'deconvolve': 'waterlevel'}, {'deconvolve': 'iterative', 'trim': (-25, 30)}, {'deconvolve': 'multitaper', 'rotate': 'NE->RT'}][a]
        kw = dict(kw, winsrc=(-5, 10, 2))
        if not any(tr.id[-1] == 'Z' for tr in st):
            kw['rotate'] = None
        if b == 1:
            kw['filter'] = {'type': 'bandpass', 'freqmin': .05, 'freqmax': .4}
        if b == 2:
            kw['response_components'] = 'QRT'
            kw['normalize'] = 0
            if kw.get('deconvolve') == 'multitaper':
                del kw['normalize'], kw['response_components']
        if b == 3:
            kw['method'] = 'P'
            kw['source_components'] = 'LZ'
        st.rf(**kw)
        return None, ['%s=%r' % (k, v) for k, v in kw.items()]
    if op == 'rfnodec':
        st.rf(deconvolve=None, rotate=None, trim=(-20, 30) if a else None)
        return None, ['deconvolve=None', 'rotate=None', 'trim=%r' % ((-20, 30) if a else None,)]
    if op == 'deconvolve':
        for g in IterMultipleComponents(st, 'onset', 3):
            if len(g) != 3:
                return None, []
        kw = [{'method': 'time'}, {'method': 'waterlevel', 'response_components': 'NE' if any(tr.id[-1] == 'N' for tr in st) else 'QT'}, {'method': 'iterative'}, {'method': 'multitaper'}][a]
        kw = dict(kw, winsrc=(-5, 10, 2))
        if len(st) == 3:
            st.deconvolve(**kw)
        else:       # traces of a group are those of the stream
            for g in IterMultipleComponents(st, 'onset', 3):
                g.deconvolve(**kw)
        return None, ['%s=%r' % (k, v) for k, v in kw.items()]
    if op == 'moveout':
        ph = [None, {'P': 'Ps', 'S': 'Sp'}, {'P': 'Ppps', 'S': 'Sp'}, None][a]
        ph = ph[o['pol'] if st.method in (None, o['pol']) else st.method] if ph else None
        st.moveout(phase=ph, ref=[6.4, 5.9][b % 2])
        return None, ['phase=%r' % ph, 'ref=%r' % [6.4, 5.9][b % 2]]
    if op == 'ppoints':
        st.ppoints([50, 120][a % 2], **({'pp_phase': 'S'} if b == 1 else {}))
        return None, []
    if op == 'rfstats':
        rf.rfstats(st, phase='P', dist_range=(0, 180))     # (onsets are now elsewhere)
        return None, []
    if op == 'stack':
        return st.stack(), []
    if op == 'harmonics':
        q = 'Q' if any(tr.id[-1] == 'Q' for tr in st) else 'R'
        kw = dict(components=q + 'T' if a > 1 else q, method=['time', 'freq'][b % 2], azim=15 * b)
        f = rf.harmonics.harmonics if False else st.harmonics
        return f(**kw), ['%s=%r' % (k, v) for k, v in kw.items()]
    if op == 'profile':
        boxes = rf.get_profile_boxes((10., 18.), 90, np.linspace(0, 600, 5), width=400)
        return st.profile(boxes), ['azimuth=90', 'latlon=(10.0, 18.0)']
    if op in ('plot_rf', 'plot_profile'):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        try:
            if op == 'plot_rf':
                st.plot_rf(**[{}, {'trim': (-5, 15)}, {'trace_scale': True, 'scale_factor': .5}, {'show_vlines': True, 'fname': '%s/p.png' % d}][a],
                           **({} if all('back_azimuth' in tr.stats and 'distance' in tr.stats for tr in st) else {'info': ()}))
            elif len(st):
                st.plot_profile(**[{}, {'trim': (-5, 15)}, {'top': 'hist'}, {'scale': 2}][a],
                                **({} if 'moveout' in st[0].stats else {'moveout_model': None}))
        finally:
            plt.close('all')
        return None, []
    raise AssertionError(op)


def history(ih):
    import tempfile
    i, ops = ih
    d = tempfile.mkdtemp()
    live, evs = {}, []
    for n, o in enumerate(ops):
        e = {'run': i, 'op': o['op'], 't': o['t'], 'r': o['r'], 'exc': '', 'args': [], 'step': n, 'a': o['a'], 'b': o['b'], 'resp': ''}
        if o['op'] == 'new':
            live[o['r']] = new(o)
        else:
            st = live[o['t']]
            if o['op'] in ('harmonics', 'plot_rf', 'moveout', 'stack', 'profile', 'ppoints', 'rfstats') and not len(st):
                o = dict(o, op='str')
                e['op'] = 'str'
                res = None
            try:
                res, e['args'] = perform(st, o, d)
                e['resp'] = ([x[21:-1] for x in e['args'] if x.startswith('response_components=')] or [''])[0]
            except kit.CaseTimeout:
                raise
            except Exception as ex:
                e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:200]
                import traceback
                e['tb'] = traceback.format_exc()[-600:]
                res = None
            if o['r']:
                if res is None:
                    res = rf.RFStream()
                live[o['r']] = res
        e['resps'] = list(e['resp'])
        e['live'] = [state(h, s) for h, s in sorted(live.items())]
        evs.append(e)
        if e['exc']:
            break
    return evs


def run(ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot    # before the workers are forked
    ctx.model_check('Heap', must_cover=('InPlace', 'Slice', 'Stack'))
    ctx.refute('Heap', 'HeapBad_overwrite', 'Frame')
    ctx.refute('Heap', 'HeapBad_sharedlog', 'Frame')
    ctx.refute('Heap', 'HeapBad_twice', 'Logged')
    hs = ctx.generate('HeapGen', num=ctx.pick(400, 8000), depth=80)
    evs = list(itertools.chain.from_iterable(kit.pmap(ctx, history, enumerate(hs), limit=120)))
    ctx.validate('HeapTrace', evs, key=lambda e: e['run'])
    ctx.notes['operations'] = {o: sum(e['op'] == o for e in evs) for o in sorted(set(e['op'] for e in evs))}
    ctx.sample(*[{k: e[k] for k in ('op', 't', 'r', 'args')} for e in evs[:8]])
