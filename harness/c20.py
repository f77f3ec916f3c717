"""C20 what the plots show."""
import os
import random
import tempfile
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.collections import PolyCollection
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
from matplotlib.patches import Rectangle
from matplotlib.path import Path
from obspy.core.inventory import Inventory, Network, Station
from rf import RFStream
from rf import imaging
from rf.profile import get_profile_boxes
from rf.simple_model import load_model
import kit
import mk

INFO = {'back_azimuth': 'baz', 'distance': 'dist', 'slowness': 'slow', 'event_magnitude': 'mag'}
DEFAULT = (('back_azimuth', 'baz', 'C0'), ('distance', 'dist', 'C3'))


def K(x, f=1000):
    return kit.fx(x, f)


def streams(g, n=None):
    st = RFStream()
    for i, t in enumerate(g['tr'][:n]):
        tr = mk.trace(t['d'], g['delta'], 1000000 * i + t['onset'] - t['off'], onset=1000000 * i + t['onset'], back_azimuth=t['baz'] / 10., distance=t['dist'] / 10., slowness=t['slow'] / 10., event_magnitude=t['mag'] / 10.)
        tr.data = tr.data.astype(float) / g['unit']
        tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = t['id']['net'], t['id']['sta'], t['id']['loc'], t['id']['cha']
        st.append(tr)
    return st


def along(data, v):
    """The parts of the data that give the values v up to baseline and scale: first sample, scale, baseline."""
    n = len(v)
    out = []
    for k in range(len(data) - n + 1):
        d = data[k:k + n]
        if np.ptp(d) == 0:
            if np.ptp(v) < 1e-12 and d[0] == 0:
                out.append((k, 0, v[0]))
            continue
        a, b = np.polyfit(d, v, 1)
        if abs(a) > 0 and np.max(np.abs(a * d + b - v)) < 1e-6 * np.ptp(v) + 1e-9:
            out.append((k, a, b))
    return out


def lines(ax, st, base, vertical=False):
    """The lines in an axes: the trace they show, its samples, baseline, largest amplitude, times.

    If a line may show several traces or parts of a trace, the one whose time and baseline are the expected ones is taken."""
    out = []
    for line in ax.get_lines():
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        if line.get_marker() not in ('None', None, '', ' '):
            continue
        t, v = (y, x) if vertical else (x, y)
        r = {'tr': 0, 'k': 0, 'n': len(t), 'base': 0, 'amp': 0, 'sign': 0, 't0': 0, 't1': 0, 'up': [], 'down': []}
        out.append(r)
        if len(t) < 3 or not np.all(np.isfinite(v)) or len(t) != len(v):
            continue
        r.update(base=K(v[0]), t0=K(t[0]), t1=K(t[-1]))
        found = []
        for i, tr in enumerate(st):
            rel = tr.times() - (tr.stats.onset - tr.stats.starttime)
            for k, a, b in along(np.asarray(tr.data, float), v):
                found.append((abs(rel[k] - t[0]) > tr.stats.delta / 4, a < 0, round(abs(b - base(i)), 4), i, k, a, b))
        if found:
            i, k, a, b = min(found)[3:]
            r.update(tr=i + 1, k=k + 1, base=K(b), amp=K(np.max(np.abs(v - b)), 1e5), sign=int(np.sign(a)))
            r['v'], r['t'], r['b'] = v, t, b
    return out


def fills(ax, rows, colors, vertical=False):
    """Between which samples a trace is filled with the colors."""
    polys = [(p, [q.vertices for q in p.get_paths()], tuple(p.get_facecolor()[0])) for p in ax.collections if isinstance(p, PolyCollection) and len(p.get_facecolor())]
    for r in rows:
        if 'v' not in r:
            continue
        v, t, b = r.pop('v'), r.pop('t'), r.pop('b')
        for name, col in zip(('up', 'down'), colors):
            if not col:
                continue
            mine = []
            for _, verts, fc in polys:
                if np.allclose(fc[:3], to_rgba(col)[:3], atol=1e-3):
                    for q in verts:
                        w = q[:, 0 if vertical else 1]
                        if len(w) > 2 and abs((w.min() if name == 'up' else w.max()) - b) < 1e-9 * max(1, abs(b)):
                            mine.append(Path(q))
            for k in range(len(t) - 1):
                if abs(v[k] + v[k + 1] - 2 * b) < 1e-9:
                    continue
                p = ((t[k] + t[k + 1]) / 2, b + .5 * ((v[k] + v[k + 1]) / 2 - b))
                if any(q.contains_point(p[::-1] if vertical else p) for q in mine):
                    r[name].append(k + 1)
    for r in rows:
        for k in ('v', 't', 'b'):
            r.pop(k, None)
    return rows


def other(ax, colors):
    """Colors of the filled areas of an axes that are not among the given ones."""
    bad = 0
    for p in ax.collections:
        if isinstance(p, PolyCollection) and len(p.get_paths()):
            fc = tuple(p.get_facecolor()[0])[:3]
            bad += not any(c and np.allclose(fc, to_rgba(c)[:3], atol=1e-3) for c in colors)
    return bad


def texts(fig):
    out = [t.get_text() for ax in fig.axes for t in ax.texts] + [t.get_text() for t in fig.texts]
    return [t for t in out if t]


def caught(f, e, saved):
    """Call with the figures that are written to files kept."""
    old = Figure.savefig

    def savefig(self, fname, *a, **kw):
        saved.append((self, str(fname), kw.get('dpi')))
        return old(self, fname, *a, **kw)
    Figure.savefig = savefig
    try:
        with warnings.catch_warnings(record=True):
            warnings.simplefilter('always')
            return f()
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        if kit.code_frame(ex) is None:
            raise
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:100]
    finally:
        Figure.savefig = old


def figure(g, e, call, name='plot.png'):
    """The figure, the file it was saved to if any."""
    saved = []
    with tempfile.TemporaryDirectory() as tmp:
        fname = os.path.join(tmp, name) if g['file'] else None
        fig = caught(lambda: call(fname), e, saved)
        e['saved'] = int(fname is not None and os.path.exists(fname) and os.path.getsize(fname) > 0)
        e['open'] = len(plt.get_fignums())
        if fname and fig is None and saved:
            fig = saved[-1][0]
        elif fname and fig is not None:
            e['saved'] = 2
    plt.close('all')
    return fig


def plot_rf(g, e):
    st = streams(g, g['n'])
    before = mk.snapshot(st)
    kw = {'trace_scale': g['own'], 'scale_factor': g['scale'] / 10., 'fillcolors': tuple(c or None for c in g['col']), 'show_traces': g['show'], 'show_vlines': g['vlines'], 'dpi': g['dpi'], 'fig_width': float(g['width'])}
    if g['trim']:
        kw['trim'] = [t / 1000. for t in g['trim']]
    info = DEFAULT
    if not g['infodef']:
        info = [[k, INFO[k], c] for k, c in zip(g['info'], ('C0', 'C3'))]
        kw['info'] = info or (None if g['seed'] % 2 else [])
    call = (lambda f: st.plot_rf(f, **kw)) if g['seed'] % 3 else (lambda f: imaging.plot_rf(st, fname=f, **kw))
    fig = figure(g, e, call)
    e['same'] = mk.same(st, before)
    e['t'] = [{'d': t['d'], 't0': K(tr.stats.starttime - tr.stats.onset), 'id': '%(net)s.%(sta)s.%(loc)s.%(cha)s' % t['id'], 'id2': '%(net)s.%(sta)s.%(loc)s.' % t['id'] + t['id']['cha'][:2] + '?', 'id3': '%(net)s.%(sta)s' % t['id'],
               'h': [K(tr.stats[i[0]]) for i in info]} for t, tr in zip(g['tr'], st)]
    e.update(own=g['own'], scale=g['scale'], show=g['show'], vlines=g['vlines'], trim=g['trim'], delta=g['delta'], colors=[int(bool(c)) for c in g['col']], ninfo=len(info) if g['show'] else 0, file=g['file'], npts=g['npts'])
    e['rows'], e['stack'], e['info'], e['title'], e['grid'], e['foreign'] = [], [], [], '', 0, 0
    if e['exc'] or fig is None:
        return
    main = stack = None
    infos = []
    for ax in fig.axes:
        ls = ax.get_lines()
        if any(l.get_marker() == '.' for l in ls):
            infos.append(ax)
        elif ax.get_xlabel() == 'time (s)':
            main = ax
        else:
            stack = ax
    if main is not None:
        e['rows'] = fills(main, lines(main, st, lambda i: i + 1), kw['fillcolors'])
        e['foreign'] = other(main, kw['fillcolors'])
        e['xlim'] = [K(x) for x in main.get_xlim()]
        e['ylim'] = [K(x) for x in main.get_ylim()]
    for ax in infos:
        for l in ax.get_lines():
            if l.get_marker() == '.':
                e['info'].append([[K(x), K(y)] for x, y in zip(l.get_xdata(), l.get_ydata())])
    if stack is not None:
        for l in stack.get_lines():
            e['stack'].append({'x': [K(x) for x in l.get_xdata()], 'y': [K(x * g['unit']) for x in l.get_ydata()]})
    axs = [a for a in (main, stack) if a is not None]
    e['grid'] = int(all(any(x.get_visible() for x in a.xaxis.get_gridlines()) for a in axs))
    tx = texts(fig)
    e['title'] = tx[0] if len(tx) == 1 else '|'.join(tx)
    e['width'], e['wanted_width'], e['dpi'], e['wanted_dpi'] = K(fig.get_size_inches()[0]), 1000 * g['width'], int(round(fig.get_dpi())), g['dpi']


def plot_profile(g, e):
    st = streams(g, g['n'])
    for tr, b in zip(st, g['box']):
        tr.data = np.resize(tr.data, g['npts'] - b['cut'])
        tr.stats.onset = tr.stats.starttime + (g['before'] + b['late']) * tr.stats.delta
        tr.stats.update({'box_pos': b['pos'] / 100., 'box_length': b['len'] / 100., 'num': b['num'], 'moveout': g['phase'], 'slowness': g['nslow'] / 10.})
        tr.stats.type = 'profile'
    if g['rev']:
        st.traces = st.traces[::-1]
    boxes = g['box'][:len(st)][::-1 if g['rev'] else 1]
    before = mk.snapshot(st)
    kw = {'scale': g['scale'] / 10., 'fillcolors': tuple(c or None for c in g['col']), 'dpi': g['dpi'], 'figsize': (g['width'], 4.)}
    if g['trim']:
        kw['trim'] = [t / 1000. for t in g['trim']]
    if g['top']:
        kw['top'] = 'hist'
    if not g['model']:
        kw['moveout_model'] = None
    call = (lambda f: st.plot_profile(f, **kw)) if g['seed'] % 3 else (lambda f: imaging.plot_profile(st, fname=f, **kw))
    fig = figure(g, e, call)
    e['same'] = mk.same(st, before)
    e['t'] = [{'d': [int(round(x * g['unit'])) for x in tr.data], 't0': K(tr.stats.starttime - tr.stats.onset), 'pos': b['pos'] * 10, 'len': b['len'] * 10, 'num': b['num']} for tr, b in zip(st, boxes)]
    e.update(scale=g['scale'], trim=g['trim'], delta=g['delta'], colors=[int(bool(c)) for c in g['col']], top=g['top'], model=g['model'], file=g['file'], npts=g['npts'])
    e['rows'], e['bars'], e['ticks'], e['table'], e['foreign'] = [], [], [], [], 0
    if e['exc'] or fig is None:
        return
    e['width'], e['wanted_width'] = K(fig.get_size_inches()[0]), 1000 * g['width']
    for ax in fig.axes:
        bars = [p for p in ax.patches if isinstance(p, Rectangle)]
        if bars:
            e['bars'] = [{'x0': K(p.get_x()), 'x1': K(p.get_x() + p.get_width()), 'h': K(p.get_y() + p.get_height())} for p in bars]
            e['barlim'] = [K(x) for x in ax.get_xlim()]
        elif ax.get_ylabel() == 'depth (km)':
            m = load_model('iasp91')
            dt = m.calculate_delay_times(phase=g['phase'], slowness=g['nslow'] / 10.)
            e['table'] = [[0, 0]] + [[K(z), K(t)] for z, t in zip(np.asarray(m.z) + np.asarray(m.dz), dt) if np.isfinite(t)]
            y = ax.get_ylim()
            for t, lab in zip(ax.yaxis.get_major_locator().tick_values(*y), [ax.yaxis.get_major_formatter()(t, i) for i, t in enumerate(ax.yaxis.get_major_locator().tick_values(*y))]):
                if min(y) <= t <= max(y):
                    e['ticks'].append([int(float(lab) * 1000), K(t)])
            e['depthlim'] = [K(v) for v in y]
        elif ax.get_xlabel() == 'distance (km)':
            e['rows'] = fills(ax, lines(ax, st, lambda i: st[i].stats.box_pos, True), kw['fillcolors'], True)
            e['foreign'] = other(ax, kw['fillcolors'])
            e['xlim'] = [K(x) for x in ax.get_xlim()]
            e['ylim'] = [K(x) for x in ax.get_ylim()]


def harmonics(g, e):
    allst = streams(g)
    def part(names, o, comps):
        st = RFStream()
        for p in names:
            for k in range(5):
                tr = allst[o + len(st)].copy()
                tr.data = np.resize(tr.data, g['npts']) if len(tr) != g['npts'] else tr.data
                tr.stats.onset = tr.stats.starttime + g['before'] * tr.stats.delta
                tr.stats.station, tr.stats.location, tr.stats.channel = 'AA', p, str(k)
                tr.stats.components = comps
                tr.stats.type = 'harmonic'
                st.append(tr)
        if g['shuffle']:
            random.Random(g['seed']).shuffle(st.traces)
        return st
    hd = part(g['parts'], 0, 'QT')
    hd2 = None
    if g['second']:
        hd2 = part(['mod'] if g['second'] == 1 else ['mod', 'unmod'], 10, 'R')
    both = [hd] + ([hd2] if hd2 else [])
    before = [mk.snapshot(s) for s in both]
    kw = {'fillcolors': tuple(c or None for c in g['col'])}
    if g['trim']:
        kw['trim'] = [t / 1000. for t in g['trim']]
    saved = []
    fig = caught(lambda: imaging.plot_harmonics(hd, hd2, **kw) if hd2 else imaging.plot_harmonics(hd, **kw), e, saved)
    e['same'] = all(mk.same(s, b) for b, s in zip(before, both))
    st = RFStream(list(hd) + (list(hd2) if hd2 else []))
    e['t'] = [{'d': [int(round(x * g['unit'])) for x in tr.data], 't0': K(tr.stats.starttime - tr.stats.onset), 'part': ('' if i < len(hd) else 'second-') + tr.stats.location, 'term': int(tr.stats.channel)} for i, tr in enumerate(st)]
    e.update(trim=g['trim'], delta=g['delta'], colors=[int(bool(c)) for c in g['col']], npts=g['npts'], parts=g['parts'], second=int(g['second'] > 0))
    e['panels'], e['labels'], e['foreign'] = [], [], 0
    plt.close('all')
    if e['exc'] or fig is None:
        return
    axs = sorted(fig.axes, key=lambda a: a.get_subplotspec().colspan.start if a.get_subplotspec() else 0)
    for ax, part in zip(axs, ('mod', 'second-mod' if hd2 else 'unmod')):
        e['panels'].append({'rows': fills(ax, lines(ax, st, lambda i: 4 - int(st[i].stats.channel) if e['t'][i]['part'] == part else -9), kw['fillcolors']), 'title': ax.get_title(), 'xlim': [K(x) for x in ax.get_xlim()]})
        e['foreign'] += other(ax, kw['fillcolors'])
    e['labels'] = [[K(p), t.get_text()] for p, t in zip(axs[0].get_yticks(), axs[0].get_yticklabels())]


def maps(g, e):
    import cartopy.crs as ccrs
    PC = ccrs.PlateCarree()
    sta = [{'lat': s['lat'], 'lon': s['lon'], 'name': 'S%d' % i} for i, s in enumerate(g['stations'])]
    if g['invform'] == 'inventory':
        inv = Inventory([Network('XX', [Station(s['name'], s['lat'] / 1000., s['lon'] / 1000., 0.) for s in sta])], source='x')
    else:
        inv = RFStream([mk.trace([1, 2], 1000, 0, station_latitude=s['lat'] / 1000., station_longitude=s['lon'] / 1000.) for s in sta for _ in range(2)])
        for tr, s in zip(inv, [s for s in sta for _ in range(2)]):
            tr.stats.station = s['name']
    pts = [(p['lat'] / 1000., p['lon'] / 1000.) for p in g['points']]
    center = (g['center']['lat'] / 1000., g['center']['lon'] / 1000.)
    boxes = get_profile_boxes(center, g['az'], np.linspace(0, 1500, len(pts) + 1), width=500)
    what = g['what']
    kw = {'label_stations': g['label']}
    call = {'stations': lambda: imaging.plot_stations(inv, **kw), 'points': lambda: imaging.plot_ppoints(pts), 'both': lambda: imaging.plot_ppoints(pts, inventory=inv, **kw), 'boxes': lambda: imaging.plot_profile_map(boxes),
            'all': lambda: imaging.plot_profile_map(boxes, inventory=inv, ppoints=pts, **kw)}[what]
    ax = caught(call, e, [])
    e.update(what=what, label=g['label'], wantsta=[[s['lon'], s['lat'], s['name']] for s in sta], wantpts=[[p['lon'], p['lat']] for p in g['points']], nboxes=len(boxes))
    e['sta'], e['pts'], e['names'], e['boxes'], e['same'] = [], [], [], [], True
    if e['exc']:
        plt.close('all')
        return
    ax.figure.canvas.draw()
    inv_ = ax.transData.inverted()

    def lonlat(disp):
        out = []
        for x, y in inv_.transform(np.atleast_2d(disp)):
            lon, lat = PC.transform_point(x, y, ax.projection)
            out.append([K(lon), K(lat)])
        return out
    for c in ax.collections:
        if hasattr(c, 'get_sizes') and len(c.get_sizes()) and hasattr(c, 'get_offset_transform'):
            off = c.get_offset_transform().transform(np.asarray(c.get_offsets()))
            # stations are filled triangles, piercing points are crosses
            e['pts' if len(c.get_paths()[0].vertices) == 4 and not c.get_paths()[0].codes.tolist().count(79) else 'sta'] += lonlat(off)
    for t in ax.texts:
        if t.get_text():
            xy = t.xycoords.transform(np.array([t.xy])) if hasattr(t.xycoords, 'transform') else None
            e['names'].append((lonlat(xy)[0] if xy is not None else [0, 0]) + [t.get_text()])
    n = 0
    from cartopy.mpl.feature_artist import FeatureArtist
    for a in ax.get_children():
        if isinstance(a, FeatureArtist):
            for geo in a._feature.geometries():
                e['boxes'].append(next((i + 1 for i, b in enumerate(boxes) if geo.equals(b['poly'])), 0))
    plt.close('all')


def case(g):
    e = {'kind': g['kind'], 'exc': ''}
    {'rf': plot_rf, 'profile': plot_profile, 'harm': harmonics, 'map': maps}[g['kind']](g, e)
    return [e]


def run(ctx):
    ctx.model_check('Plot', must_cover=('Draw', 'Stack'))
    for fault, inv in (('running', 'Comparable'), ('mixed', 'Stacked'), ('alone', 'Stacked'), ('skip', 'Once')):
        ctx.refute('Plot', 'PlotBad_' + fault, inv)
    cases = ctx.generate('PlotGen', num=ctx.pick(700, 15000), depth=10)
    evs = []
    for i, r in enumerate(kit.pmap(ctx, case, cases, limit=120)):
        for e in r or []:
            e['w'] = i
            evs.append(e)
    ctx.validate('PlotTrace', evs)
