"""C17 the batch commands over directories of records."""
import contextlib
import glob
import hashlib
import io
import json
import os
import sys
import tempfile
import numpy as np
import obspy
import math
from obspy.core.event import Catalog
from obspy.core.inventory import Inventory, Network, Station, Channel
import rf
from rf import read_rf, RFStream
from rf import batch
from rf.profile import get_profile_boxes, profile
from rf.util import iter_event_data
import kit
import mk
import seismo

TIMES = ('event_time', 'onset')
NUM = ('event_latitude', 'event_longitude', 'event_depth', 'event_magnitude', 'station_latitude', 'station_longitude', 'station_elevation',
       'distance', 'back_azimuth', 'inclination', 'slowness', 'pp_latitude', 'pp_longitude', 'pp_depth')
TEXT = ('phase', 'type', 'moveout')
EXT = {'Q': '.QHD', 'SAC': '.SAC', 'H5': '.h5'}
GRID = [0, 700, 8]


class Unusual(Exception):
    pass


def inventory(groups):
    nets = {}
    for gr in groups:
        chs = [Channel(gr['band'] + c, gr['loc'], gr['lat'] / 1000., gr['lon'] / 1000., float(gr['elev']), 0.) for c in 'ZNE']
        nets.setdefault(gr['net'], {}).setdefault(gr['sta'], []).extend(chs)
    return Inventory([Network(n, [Station(s, 1., 2., 3., channels=c) for s, c in stas.items()]) for n, stas in nets.items()], source='x')


class Provider(object):
    def __init__(self, g, refs=None):
        self.g, self.refs, self.codes = g, refs, ['%(net)s.%(sta)s.%(loc)s.%(band)s?' % gr for gr in g['gr']]

    def signal(self, e, j, what, code, starttime, endtime):
        net, sta, loc, cha = code.split('.')
        dt = self.g['delta'] / 1000.
        t0 = starttime + self.g['frac'] / 1000. * dt
        n = int((endtime - t0) / dt)
        st = obspy.Stream()
        # the pulse is at the onset for all phases
        k0 = int((10 - self.g['win'][0]) / dt)
        for i, c in enumerate('ZNE'):
            rnd = np.random.RandomState(1000 * e + 10 * j + i)
            d = rnd.randint(-30, 31, n)
            for f, k in ((1, 0), (.5, rnd.randint(10, 40)), (-.3, rnd.randint(45, 80))):
                d[k0 + k:k0 + k + 12] += (f * rnd.randint(300, 900) * np.array([.1, .4, .8, 1, .7, .2, -.3, -.6, -.5, -.3, -.1, 0])).astype(int)
            d = d.astype('i4')
            h = {'network': net, 'station': sta, 'location': loc, 'channel': cha[:-1] + c, 'delta': dt, 'starttime': t0}
            if what == 'two' and i == 1:
                continue
            if what == 'gap' and i == 2:
                st += obspy.Trace(d[:n // 2], h)
                h['starttime'] = t0 + (n // 2 + 7) * dt
                d = d[n // 2 + 7:]
            st += obspy.Trace(d, h)
        return st

    def __call__(self, network, station, location, channel, starttime, endtime, **kw):
        code = '.'.join((network, station, location, channel))
        j = self.codes.index(code)
        e = min((i for i in range(len(self.g['ev'])) if (i, j) in self.refs), key=lambda i: abs(self.refs[i, j] - starttime))
        what = self.g['script'][e][j]
        if what == 'raise':
            raise (ValueError('no data'), Unusual('x'), KeyError('x'), OSError('x'))[self.g['how']]
        if what == 'none':
            return None
        if what == 'empty':
            return obspy.Stream()
        return self.signal(e, j, what, code, starttime, endtime)


def fetch(**kw):
    return fetch.provider(**kw)


def close(a, b, tol):
    return len(a) == len(b) and np.all(np.isfinite(a)) and np.max(np.abs(a - b), initial=0) <= tol * max(1e-30, np.max(np.abs(b), initial=0))


def heads(tr, ref, fmt):
    exact = fmt == 'H5'
    for k in NUM:
        if (k in tr.stats) != (k in ref.stats):
            return k
        if k in ref.stats and not (math.isnan(tr.stats[k]) and math.isnan(ref.stats[k])) and not abs(tr.stats[k] - ref.stats[k]) <= (1e-9 if exact else 2e-4 + 1e-6 * abs(ref.stats[k])):
            return k
    for k in TIMES:
        if (k in tr.stats) != (k in ref.stats):
            return k
        if k in ref.stats and not abs(tr.stats[k] - ref.stats[k]) <= (1e-6 if exact else .0021):
            return k
    for k in TEXT:
        if tr.stats.get(k) != ref.stats.get(k):
            return k
    if abs(tr.stats.starttime - ref.stats.starttime) > .0021 or abs(tr.stats.delta - ref.stats.delta) > 1e-6:
        return 'starttime'
    return ''


class World(object):
    def __init__(self, g):
        self.g = g
        g['win'] = [-20, 60] if g['phase'] == 'P' else [-50, 25]
        self.options = {'phase': g['phase'], 'request_window': g['win'], 'pp_depth': g['pp'], 'dist_range': [20, 100]}
        r = g['rf']
        self.rf = {'deconvolve': r['deconvolve'], 'rotate': r['rotate']}
        if r['trim']:
            self.rf['trim'] = [-18, 50] if g['phase'] == 'P' else [-45, 22]
        if r['filter']:
            self.rf['filter'] = {'type': 'bandpass', 'freqmin': .05, 'freqmax': 1.}
        if r['down']:
            self.rf['downsample'] = 2.5
        if r['deconvolve'] == 'iterative':
            self.rf['itmax'] = 15
        if r['deconvolve'] == 'multitaper':
            self.rf['winsrc'] = [-5, 10, 2]
            self.rf.pop('downsample', None)
        self.boxes = {'latlon0': [0., -3.], 'azimuth': 90, 'width': 4000}
        self.events = [seismo.event(e, i) for i, e in enumerate(g['ev'])]
        self.inv = inventory(g['gr'])
        self.raw, self.cache, refs = {}, {}, {}
        self.prov = Provider(g)
        self.file = obspy.Stream()
        for i in range(len(g['ev'])):
            for j, gr in enumerate(g['gr']):
                def give(network, station, location, channel, starttime, endtime, i=i, j=j):
                    refs[i, j] = starttime
                    code = '.'.join((network, station, location, channel))
                    if g['script'][i][j] in ('data', 'two', 'gap'):
                        self.file += self.prov.signal(i, j, g['script'][i][j], code, starttime, endtime)
                    return self.prov.signal(i, j, 'data', code, starttime, endtime)
                st = list(iter_event_data([self.events[i]], inventory([gr]), give, **self.options))
                if len(st) != 1:
                    raise RuntimeError('world without reference %r' % ((i, j),))
                self.raw[i, j] = st[0]
        self.prov.refs = refs
        self.done = sorted(set(tuple(d['done']) for d in g['dirs']), key=len)

    def ref(self, i, j, done):
        k = (i, j, done)
        if k not in self.cache:
            if not done:
                self.cache[k] = self.raw[i, j]
            else:
                st = self.ref(i, j, done[:-1]).copy()
                getattr(st, {'calc': 'rf', 'moveout': 'moveout'}[done[-1]])(**(json.loads(json.dumps(self.rf)) if done[-1] == 'calc' else {}))
                self.cache[k] = st
        return self.cache[k]

    def which(self, tr, fmt):
        """The record, component and steps that a trace is the result of."""
        found = {'e': 0, 'g': 0, 'c': '', 's': [], 'bad': 'data'}
        for i in range(len(self.g['ev'])):
            for j in range(len(self.g['gr'])):
                for done in self.done:
                    for r in self.ref(i, j, done):
                        if close(tr.data.astype(float), r.data, 1e-9 if fmt == 'H5' and self.pure else 1e-2):
                            bad = heads(tr, r, fmt if self.pure else '')
                            bad = bad if bad or tr.id == r.id else 'id'
                            if not bad or found['bad'] == 'data':
                                found = {'e': i + 1, 'g': j + 1, 'c': r.stats.channel[-1], 's': list(done), 'bad': bad}
                            if not bad:
                                return found
        return found


def files(d, fmt):
    if fmt == 'H5':
        fs = [d + '.h5']
    else:
        fs = sorted(glob.glob(d + EXT[fmt]) + glob.glob(os.path.join(d, '**', '*' + EXT[fmt]), recursive=True))
    return [f for f in fs if os.path.isfile(f)]


def content(d, fmt):
    st = RFStream()
    for f in files(d, fmt):
        st += read_rf(f)
    return st


def digest():
    out = {}
    for root, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f))
            out[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return out


def owner(path):
    return path.split(os.sep)[0].split('.')[0]


def command(w, o, first):
    """Run one command; the output is what is in the directories afterwards."""
    g = w.g
    sub = 'ev_' + '_'.join(map(str, o['sub'])) + '.xml'
    if not os.path.exists(sub):
        Catalog([w.events[i - 1] for i in o['sub']]).write(sub, 'QUAKEML')
    din, dout = 'd%d' % o['in'], 'd%d' % o['out']
    infmt = g['dirs'][o['in'] - 1]['fmt'] if o['in'] else o['fmt']
    args = ['--events', sub, '--format', infmt, o['op']]
    if o['op'] == 'data':
        if g['route'] == 'callable':
            return lambda: batch.run('data', conf='conf.json', events=sub, format=o['fmt'], commands=list(o['steps']), path_out=dout, get_waveforms=w.prov)
        return lambda: batch.run_cli(args + o['steps'] + [dout])
    if o['op'] == 'calc':
        return lambda: batch.run_cli(args + o['steps'][1:] + [din, dout])
    if o['op'] == 'convert':
        return lambda: batch.run_cli(args + [din, dout, o['fmt']])
    return lambda: batch.run_cli(args + [din, dout])


def case(g):
    seismo.fast()
    old, path = os.getcwd(), list(sys.path)
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            return play(g)
        finally:
            os.chdir(old)
            sys.path[:] = path


def play(g):
    w = World(g)
    w.inv.write('stations.xml', 'STATIONXML')
    conf = {'inventory': 'stations.xml', 'options': w.options, 'rf': w.rf, 'boxes': w.boxes, 'boxbins': GRID, 'data': 'plugin' if g['route'] == 'plugin' else 'data.mseed', 'plugin': 'c17 : fetch'}
    with open('conf.json', 'w') as f:
        json.dump(conf, f)
    fetch.provider = w.prov
    if len(w.file):
        w.file.write('data.mseed', 'MSEED')
    key = ['%(net)s.%(sta)s.%(loc)s' % gr for gr in g['gr']]
    avail = [[x == 'data' for x in row] for row in g['script']]
    w.pure = True
    float_dirs = set()
    out = []
    if g['route'] == 'file' and not len(w.file):
        return []
    for n, o in enumerate(g['plan']):
        before = digest()
        infmt = g['dirs'][o['in'] - 1]['fmt'] if o['in'] else ''
        e = {'n': n, 'op': o['op'], 'in': o['in'], 'out': o['out'], 'fmt': o['fmt'], 'steps': o['steps'], 'sub': o['sub'], 'avail': avail, 'key': [key.index(k) + 1 for k in key],
             'comps': ''.join(sorted({'ZNE->LQT': 'LQT', 'NE->RT': 'ZRT'}[g['rf']['rotate']])), 'exc': '', 'said': ''}
        call = command(w, o, n == 0)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                call()
        except kit.CaseTimeout:
            raise
        except (Exception, SystemExit) as ex:
            if isinstance(ex, Exception) and kit.code_frame(ex) is None:
                raise
            e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:100]
        after = digest()
        mine = 'd%d' % o['out']
        e['touched'] = sorted(set(owner(k) for k in set(before) | set(after) if before.get(k) != after.get(k) and owner(k) not in (mine, '__pycache__') and not k.startswith('ev_')))
        if o['fmt'] != 'H5' or o['in'] in float_dirs:
            float_dirs.add(o['out'])
        w.pure = o['out'] not in float_dirs
        st = content(mine, o['fmt'])
        e['kind'] = g['dirs'][o['out'] - 1]['kind']
        e['recs'], e['ok'], e['ids'] = [], True, 0
        if e['kind'] == 'rec':
            got = {}
            for tr in st:
                x = w.which(tr, o['fmt'])
                got.setdefault((x['e'], x['g'], tuple(x['s'])), []).append((x['c'], x['bad']))
            for (i, j, s), cs in sorted(got.items()):
                e['recs'].append({'e': i, 'g': j, 's': list(s), 'comps': ''.join(sorted(c for c, b in cs)), 'bad': sorted(set(b for c, b in cs if b))})
        elif e['kind'] == 'stack':
            src = content('d%d' % o['in'], infmt)
            e['ok'] = stacked(st, src)
            e['ids'] = len(st)
        else:
            src = content('d%d' % o['in'], infmt)
            times = [mk.at(g['ev'][i - 1]['t']) for i in o['sub']]
            src = RFStream([tr for tr in src if any(abs(tr.stats.event_time - t) < .5 for t in times)])
            e['ok'] = profiled(st, src, w)
            e['ids'] = len(st)
        out.append(e)
    return out


def stacked(st, src):
    ids = sorted(set(tr.id for tr in src))
    if sorted(tr.id for tr in st) != ids:
        return False
    for tr in st:
        m = [x for x in src if x.id == tr.id]
        if not close(tr.data, np.mean([x.data.astype(float) for x in m], axis=0), 1e-5) or abs((tr.stats.onset - tr.stats.starttime) - (m[0].stats.onset - m[0].stats.starttime)) > .003:
            return False
    return True


def profiled(st, src, w):
    if not len(src):
        return not len(st)
    ref = profile(src, get_profile_boxes(bins=np.linspace(*GRID), **w.boxes))
    name = lambda tr: (tr.stats.channel, round(float(tr.stats.box_pos), 3))
    a, b = {name(tr): tr for tr in st}, {name(tr): tr for tr in ref}
    return len(a) == len(st) and set(a) == set(b) and all(close(a[k].data, b[k].data, 1e-5) for k in a) and all(a[k].stats.get('num', b[k].stats.num) == b[k].stats.num for k in a)


def run(ctx):
    ctx.model_check('Pipeline', must_cover=('Start', 'Do', 'End'))
    ctx.refute('Pipeline', 'PipelineBad_collide', 'Identity')
    ctx.refute('Pipeline', 'PipelineBad_abort', 'Complete')
    ctx.refute('Pipeline', 'PipelineBad_inplace', 'Frame')
    cases = ctx.generate('PipelineGen', num=ctx.pick(110, 2500), depth=20)
    evs = []
    for i, r in enumerate(kit.pmap(ctx, case, cases, limit=200)):
        for e in r or []:
            e['w'] = i
            evs.append(e)
    ctx.validate('PipelineTrace', evs, key=lambda e: e['w'])
