"""C18 options of the batch commands."""
import contextlib
import copy
import hashlib
import inspect
import io
import json
import os
import random
import shutil
import sys
import tempfile
import types
import numpy as np
import obspy
from obspy.core.event import Catalog
from obspy.core.inventory import Inventory, Network, Station, Channel
import rf
import rf.imaging
from rf import RFStream, rfstats, read_rf
from rf.rfstream import RFTrace
from rf import batch
from rf.profile import get_profile_boxes, profile
import kit
import mk
import seismo

DIST = [40, 58, 88, 28, 70]
FILES = {'evA.xml': [0, 1, 2], 'evB.xml': [3, 4]}
STATIONS = {'st1.xml': ['AA'], 'st2.xml': ['AA', 'BB']}
LAT = {'AA': 0, 'BB': 200}
SCALARS = ('events', 'inventory', 'data', 'plugin', 'format', 'phase', 'moveout_phase', 'boxbins')
EVENTS = [{'lat': 300 * i, 'lon': 1000 * d, 'depth': 10000 * (i + 1), 'mag': 60, 't': 10000000 * i + 1234, 'pref': False, 'prefmag': False} for i, d in enumerate(DIST)]
_TEMPLATE = []
_PROF = {}
LOG = {}


def canon(x):
    if isinstance(x, (tuple, np.ndarray)):
        x = list(x)
    if isinstance(x, str) and str is not type(x):
        x = str(x)
    return json.dumps(json.loads(json.dumps(x)), sort_keys=True)


def pairs(d):
    return sorted([k, canon(v)] for k, v in d.items())


def source(val):
    def get(network, station, location, channel, starttime, endtime, **kw):
        LOG.setdefault('requests', []).append((network, station))
        n = int(round(endtime - starttime)) + 1
        return obspy.Stream([obspy.Trace(np.full(n, val, 'i4'), {'network': network, 'station': station, 'location': location, 'channel': channel[:-1] + c, 'starttime': starttime, 'delta': 1.}) for c in 'ZNE'])
    return get


class Client(object):
    def __init__(self, **kw):
        LOG['client'] = pairs(kw)

    def get_waveforms(self, network, station, location, channel, starttime, endtime):
        return source(4)(network, station, location, channel, starttime, endtime)


def recorder(name, func):
    sig = inspect.signature(func)
    if any(p.kind is p.VAR_POSITIONAL for p in sig.parameters.values()):
        sig = inspect.signature(getattr(rf.imaging, name))

    def stub(self, *args, **kw):
        b = sig.bind(self, *args, **kw)
        d = {}
        for k, v in b.arguments.items():
            p = sig.parameters[k]
            if p.kind is p.VAR_KEYWORD:
                d.update(v)
            elif p.name != list(sig.parameters)[0] and not (p.default is not p.empty and p.default == v):
                d[k] = v
        d.pop('fname', None)
        LOG.setdefault('calls', []).append([name, pairs(d), sorted(set(tr.stats.station for tr in self)) if name != 'plot_profile' else []])
        return self
    return stub


def setup():
    """Once per process: events, stations, records, plugins."""
    seismo.fast()
    sys.modules['obspy.clients.fake18'] = types.SimpleNamespace(Client=Client)
    sys.modules['c18plug'] = types.SimpleNamespace(f1=source(1), f2=source(2))
    tmp = tempfile.mkdtemp(prefix='c18_')
    old = os.getcwd()
    os.chdir(tmp)
    try:
        os.mkdir('sub')
        evs = [seismo.event(e, i) for i, e in enumerate(EVENTS)]
        for f, ids in FILES.items():
            Catalog([evs[i] for i in ids]).write(f, 'QUAKEML')
        for f, codes in STATIONS.items():
            Inventory([Network('XX', [Station(s, LAT[s] / 1000., 0., 100., channels=[Channel('BH' + c, '', LAT[s] / 1000., 0., 100., 0.) for c in 'ZNE']) for s in codes])], source='x').write(f, 'STATIONXML')
        open('garbage.xml', 'w').write('<a>no</b>')
        raw = obspy.Stream()
        recs = RFStream()
        for i, ev in enumerate(evs):
            for s in ('AA', 'BB'):
                coords = {'latitude': LAT[s] / 1000., 'longitude': 0., 'elevation': 100.}
                stats = rfstats(event=ev, station=coords, phase='P', dist_range=(0, 180), pp_depth=50)
                for c in 'LQT':
                    rnd = np.random.RandomState(100 * i + 10 * (s == 'BB') + 'LQT'.index(c))
                    tr = RFTrace(data=rnd.randint(-1000, 1000, 120).astype(float), header={'network': 'XX', 'station': s, 'channel': 'BH' + c, 'delta': .5, 'starttime': stats.onset - 10})
                    tr.stats.update(stats)
                    tr.stats.type = 'rf'
                    recs.append(tr)
                for c in 'ZNE':
                    raw += obspy.Trace(np.full(3000, 3, 'i4'), {'network': 'XX', 'station': s, 'channel': 'BH' + c, 'delta': 1., 'starttime': stats.event_time})
        raw.write('all.mseed', 'MSEED')
        for i in range(len(evs)):
            for s in ('AA', 'BB'):
                st = recs.select(station=s)
                st.traces = [tr for tr in st if tr.stats.event_time == mk.at(EVENTS[i]['t'])]
                for fmt in ('Q', 'SAC', 'H5'):
                    batch.write(st.copy(), 'rfs', fmt)
        prof = profile(recs, get_profile_boxes((0, -3), 90, np.linspace(0, 1000, 11)))
        for fmt in ('Q', 'SAC', 'H5'):
            batch.write(prof.copy(), 'prof', fmt, type='profile')
        return tmp, recs
    finally:
        os.chdir(old)


def template():
    if not _TEMPLATE:
        _TEMPLATE.append(setup())
        import atexit
        atexit.register(shutil.rmtree, _TEMPLATE[0][0], True)
    return _TEMPLATE[0]


def digest():
    out = {}
    for root, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f))
            out[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return out


def value(rnd, k, v, form):
    """The value of an option as text of the configuration file."""
    if k == 'boxbins':
        return v
    if k in ('events', 'inventory') and form and v not in ('missing.xml',):
        return '[%s, "%s"]' % (json.dumps(v), {'events': 'QUAKEML', 'inventory': 'STATIONXML'}[k])
    return json.dumps(v)


def text(g):
    """The configuration file with comments all over the place."""
    rnd = random.Random(g['seed'])
    p = g['comments'] / 100.
    note = lambda: rnd.choice(['# comment', '#', '# with "quotes" and, commas', "# it's {a: [b}", '#"phase": "P",', '### { "rf": {} }', '# # #', '# \\" \\'])

    def lines(x):
        out = []
        for s in x:
            while rnd.random() < p / 2:
                out.append(rnd.choice(['', '  ', '\t']) + note())
            out.append(s + (rnd.choice(['', ' ', '   ']) + note() if rnd.random() < p else ''))
        return out
    f = g['file']
    items = [(k, [json.dumps(k) + ': ' + value(rnd, k, f[k], rnd.random() < .2)]) for k in SCALARS if f[k]]
    for name, d in zip(g['names'], f['dicts']):
        if d['given']:
            if rnd.random() < .6:
                body = ['%s: %s' % (json.dumps(k), v) for k, v in d['p']]
                items.append((name, ['%s: {' % json.dumps(name)] + [b + (',' if i < len(body) - 1 else '') for i, b in enumerate(body)] + ['}']))
            else:
                items.append((name, ['%s: {%s}' % (json.dumps(name), ', '.join('%s: %s' % (json.dumps(k), v) for k, v in d['p']))]))
    if g['unknown']:
        items.append((g['unknown'], ['%s: 5' % json.dumps(g['unknown'])]))
    rnd.shuffle(items)
    ls = ['{']
    for i, (_, x) in enumerate(items):
        ls += x[:-1] + [x[-1] + (',' if i < len(items) - 1 else '')]
    ls += ['}']
    s = '\n'.join(lines(ls)) + rnd.choice(['', '\n', '\n# end'])
    if g['conf'] == 'broken':
        s = s.replace(':', ' ') if rnd.random() < .5 else s + '\n}\n'
    if g['conf'] == 'notjson':
        s = rnd.choice(['', 'hello', '{"events" "evA.xml"}', '{', "{'events': 'evA.xml'}", '# {}'])
    return s


def arguments(g, conf):
    """Positional and named arguments of batch.run, or the list for the command line."""
    call, rnd = g['call'], random.Random(g['seed'] + 1)
    paths = {'data': ['out'], 'convert': ['rfs', 'out', g['newformat']], 'plot-profile': ['prof', 'out'], 'create': [], 'print': []}.get(g['cmd'], ['rfs', 'out'])
    objs = []
    if g['cmd'] == 'print':
        objs = {'events': ['events'], 'stations': ['stations'], 'files': [os.path.join('rfs', 'XX.AA.', f) for f in sorted(os.listdir('rfs/XX.AA.')) if f.endswith('.QHD')][:2]}[g['objects']]
    opts = {}
    for k in SCALARS:
        if call[k]:
            opts[k] = call[k]
    for i, (name, d) in enumerate(zip(g['names'], call['dicts'])):
        if d['given']:
            opts[name] = '{%s}' % ', '.join('%s: %s' % (json.dumps(k), v) for k, v in d['p'])
        if g['badjson'] == i + 1:
            opts[name] = '{"a": '
    if g['route'] == 'cli':
        args = [] if conf is None else ['-c', conf]
        for k, v in opts.items():
            args += ['--' + k.replace('_', '-'), v]
        args.append(g['cmd'])
        if g['cmd'] == 'create' and g['tutorial']:
            args.append(rnd.choice(['-t', '--tutorial']))
        return None, args + list(g['steps']) + objs + paths
    kw = {} if conf is None else {'conf': conf}
    if g['cmd'] != 'create':
        for k, v in opts.items():
            kw[k] = v
            if k in g['names'] or k == 'boxbins':
                if g['how'] % 2 and not v.startswith('{"a": '):
                    kw[k] = json.loads(v)
            elif k == 'events' and v in FILES:
                kw[k] = [v, [v, 'QUAKEML'], obspy.read_events(v), obspy.read_events(v).events][g['how'] % 4]
            elif k == 'inventory' and v in STATIONS:
                kw[k] = [v, (v, 'STATIONXML'), obspy.read_inventory(v)][g['how'] % 3]
        if paths:
            kw['path_out'] = 'out'
        if len(paths) > 1:
            kw['path_in'] = paths[0]
        if g['cmd'] == 'convert':
            kw['newformat'] = g['newformat']
        if g['cmd'] in ('data', 'calc'):
            kw['commands'] = list(g['steps'])
        if objs:
            kw['objects'] = objs
    else:
        kw['tutorial'] = g['tutorial']
    return kw, None


def records(st):
    """Event, station and headers of the records of a stream."""
    out = {}
    for tr in st:
        s = tr.stats
        i = next((i for i, e in enumerate(EVENTS) if abs(mk.at(e['t']) - s.event_time) < 1), -1)
        key = (i, s.station)
        out.setdefault(key, []).append({'phase': s.phase, 'pp': int(round(s.get('pp_depth', -1))), 'val': int(round(float(tr.data[0]))), 'lo': int(round(s.starttime - s.onset)), 'hi': int(round(s.endtime - s.onset)), 'num': 0})
    res = []
    for (i, sta), x in sorted(out.items()):
        r = dict(x[0] if all(y == x[0] for y in x) else {'phase': '?', 'pp': 0, 'val': 0, 'lo': 0, 'hi': 0})
        r.update(e=i + 1, sta=sta, num=len(x))
        res.append(r)
    return res


def profiles(recs, g):
    """All profiles that the options in the file and in the call can lead to."""
    i = g['names'].index('boxes')
    out = []
    for ev in sorted({x[k] for x in (g['file'], g['call']) for k in ['events'] if x[k] in FILES}):
        for inv in sorted({x['inventory'] for x in (g['file'], g['call']) if x['inventory'] in STATIONS}):
            for box in {json.dumps(x['dicts'][i]['p']) for x in (g['file'], g['call']) if x['dicts'][i]['given']}:
                own = dict(json.loads(box)).get('bins')
                for bins in {x['boxbins'] for x in (g['file'], g['call']) if x['boxbins']} | ({''} if own else set()):
                    key = (ev, inv, box, bins)
                    if key not in _PROF:
                        st = RFStream([tr for tr in recs if tr.stats.station in STATIONS[inv] and any(tr.stats.event_time == mk.at(EVENTS[j]['t']) for j in FILES[ev])])
                        _PROF[key] = profile(st, get_profile_boxes(bins=np.linspace(*json.loads(bins)) if bins else json.loads(own), **{k: json.loads(v) for k, v in json.loads(box) if k != 'bins'}))
                    out.append((key, _PROF[key]))
    return out


def same_profile(a, b):
    f = lambda st: sorted((tr.stats.channel[-1], round(float(tr.stats.box_pos), 2)) for tr in st)
    if f(a) != f(b):
        return False
    for tr in a:
        m = [x for x in b if x.stats.channel[-1] == tr.stats.channel[-1] and abs(x.stats.box_pos - tr.stats.box_pos) < .01]
        if len(m) != 1 or any(k in tr.stats and abs(tr.stats[k] - m[0].stats[k]) > 1e-3 for k in ('box_latitude', 'box_longitude', 'box_length')) or len(tr) != len(m[0]) or np.max(np.abs(tr.data - m[0].data)) > 1e-3 * np.max(np.abs(m[0].data)):
            return False
    return True


def case(g):
    tmp, recs = template()
    old, path = os.getcwd(), list(sys.path)
    with tempfile.TemporaryDirectory() as work:
        w = os.path.join(work, 'w')
        shutil.copytree(tmp, w)
        os.chdir(w)
        saved = {}
        try:
            for name in ('rf', 'moveout', 'plot_rf', 'plot_profile'):
                saved[name] = RFStream.__dict__[name]
                setattr(RFStream, name, recorder(name, saved[name]))
            return play(g, recs)
        finally:
            for name, f in saved.items():
                setattr(RFStream, name, f)
            os.chdir(old)
            sys.path[:] = path


def play(g, recs):
    conf = g['confpath']
    if g['cmd'] != 'create':
        if g['conf'] in ('file', 'broken', 'notjson'):
            with open(conf, 'w') as f:
                f.write(text(g))
        elif g['conf'] == 'missing':
            conf = 'nothere.json'
        else:
            conf = ['None', 'none', 'null', ''][g['seed'] % 4]
    if conf == 'conf.json' and g['how'] % 2 and g['route'] == 'cli':
        conf_arg = None
    else:
        conf_arg = conf
    kw, args = arguments(g, conf_arg)
    before = digest()
    LOG.clear()
    kept = {k: copy.deepcopy(v) for k, v in (kw or {}).items() if k in g['names'] and isinstance(v, dict)}
    e = {'w': 0, 'cmd': g['cmd'], 'route': g['route'], 'conf': g['conf'], 'steps': g['steps'], 'unknown': g['unknown'], 'badjson': g['badjson'], 'file': g['file'], 'call': g['call'], 'names': g['names'],
         'newformat': g['newformat'], 'objects': g['objects'], 'tutorial': g['tutorial'], 'exc': ''}
    for x in ('file', 'call'):
        e[x] = dict(g[x], dicts=[{'given': d['given'], 'p': [[k, canon(json.loads(v))] for k, v in d['p']]} for d in g[x]['dicts']])
    if g['conf'] == 'none':
        e['file'] = dict({k: '' for k in SCALARS}, dicts=[{'given': 0, 'p': []} for _ in g['names']])
        e['unknown'] = ''
    buf = io.StringIO()
    batch.tqdm = lambda: None
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            if args is not None:
                batch.run_cli(args)
            else:
                batch.run(g['cmd'], **kw)
    except kit.CaseTimeout:
        raise
    except (Exception, SystemExit) as ex:
        if isinstance(ex, Exception) and kit.code_frame(ex) is None:
            raise
        e['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:100]
    said = buf.getvalue()
    e['said'] = said.strip()[-200:].replace(os.getcwd(), '')
    after = digest()
    new = sorted(k for k in after if before.get(k) != after[k] and '__pycache__' not in k)
    e['gone'] = sorted(k for k in before if k not in after)
    e['args_changed'] = sorted(k for k, v in kept.items() if kw[k] != v)
    mine = [f for f in new if f.split(os.sep)[0].split('.')[0] == 'out']
    e['others'] = [f for f in new if f not in mine]
    e['copied'], e['conf_path'] = [], conf
    if g['cmd'] == 'create':
        src = os.path.join(os.path.dirname(rf.__file__), 'example')
        for f in e['others']:
            for name in os.listdir(src):
                p = os.path.join(src, name)
                if os.path.isfile(p) and hashlib.sha1(open(p, 'rb').read()).hexdigest() == after[f]:
                    e['copied'].append([f, name])
        d = os.path.dirname(conf)
        e['wanted'] = [[conf, 'conf.json']] + ([[os.path.join(d, n), n] for n in ('example_events.xml', 'example_inventory.xml', 'example_data.mseed')] if g['tutorial'] else [])
    fmts = sorted(set({'.QHD': 'Q', '.QBN': 'Q', '.SAC': 'SAC', '.h5': 'H5'}.get(os.path.splitext(f)[1], f) for f in mine))
    e['fmts'], e['nfiles'] = fmts, len(mine)
    e['calls'] = [{'f': c[0], 'kw': c[1], 'sta': c[2]} for c in LOG.get('calls', [])]
    e['client'] = LOG.get('client', [])
    e['recs'], e['match'], e['ids'] = [], [], []
    st = RFStream()
    for f in mine:
        if not f.endswith('.QBN') and not f.endswith('.pdf'):
            st += read_rf(f)
    if g['cmd'] in ('data', 'calc', 'moveout', 'convert'):
        e['recs'] = records(st)
    elif g['cmd'] == 'stack':
        e['ids'] = sorted(tr.id for tr in st)
    elif g['cmd'] == 'profile':
        e['match'] = [{'events': k[0], 'inventory': k[1], 'boxes': [[a, canon(json.loads(b))] for a, b in json.loads(k[2])], 'boxbins': k[3]} for k, p in profiles(recs, g) if same_profile(st, p)]
    e['shown'] = []
    if g['cmd'] == 'print':
        if g['objects'] == 'events':
            e['shown'] = [f for f in sorted(FILES) if all((str(mk.at(EVENTS[i]['t']))[:19] in said) == (i in FILES[f]) for i in range(len(EVENTS)))]
        elif g['objects'] == 'stations':
            e['shown'] = [f for f in sorted(STATIONS) if all(('XX.' + s in said) == (s in STATIONS[f]) for s in LAT)]
        else:
            e['shown'] = ['files'] if said.count('XX.AA..BH') == 6 else []
    e['dist'] = DIST
    e['evs'] = {k: [i + 1 for i in v] for k, v in FILES.items()}
    e['stas'] = STATIONS
    del e['badjson']
    e['bad_call'] = g['badjson'] > 0
    return [e]


def run(ctx):
    ctx.model_check('Config', must_cover=('Parse', 'Merge', 'Check', 'Read', 'Work'))
    for fault, inv in (('filewins', 'Effective'), ('merge', 'Effective'), ('shorthandfirst', 'Effective'), ('late', 'Refused'), ('silent', 'Refused')):
        ctx.refute('Config', 'ConfigBad_' + fault, inv)
    cases = ctx.generate('ConfigGen', num=ctx.pick(900, 20000), depth=10)
    evs = []
    for i, r in enumerate(kit.pmap(ctx, case, cases, limit=120)):
        for e in r or []:
            e['w'] = i
            evs.append(e)
    ctx.validate('ConfigTrace', evs)
