"""Shared machinery of the checks: running TLC, validating traces, evidence, verdicts.

Nothing in here knows about a particular property.  A check module (harness/cNN.py) provides

    run(ctx)      -> fills ctx (model-checks the design, generates behaviours from the
                     specification, drives the code in /repo, validates the recorded trace)

and every verdict is computed by TLC from a module in spec/: the driver only records.
"""
import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('RF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    """The check itself could not do its job (exit 2)."""


class CaseTimeout(BaseException):
    pass


# --------------------------------------------------------------------------- TLC

def _tlc_cmd(module, cfg, metadir, extra=(), heap='2g'):
    return ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + metadir, '-cp', JARS,
            'tlc2.TLC', '-metadir', metadir, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]


_RE_STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left')
_RE_SIM = re.compile(r'The number of states generated: (\d+)')


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier == 'quick'
        self.seed = seed
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='rfcheck_%s_' % prop)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.notes = {}
        self.bad = []            # (event, clauses)
        self.exhaustive = []
        self.assumptions = []
        self._n = 0

    # -- scratch
    def scratch(self, name=''):
        self._n += 1
        d = os.path.join(self.work, '%03d%s' % (self._n, name))
        os.makedirs(d)
        return d

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- model checking of the design
    def model_check(self, module, cfg=None, timeout=600, workers=NPROC, env=None, extra=(), note=None,
                    must_cover=()):
        """Exhaustive TLC run.  An error here means that the *specification* is wrong (exit 2)."""
        d = self.scratch('mc')
        cfg = os.path.join(SPEC, (cfg or module) + '.cfg')
        cmd = _tlc_cmd(os.path.join(SPEC, module + '.tla'), cfg, d,
                       ['-workers', str(workers), '-coverage', '60'] + list(extra), heap='4g')
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s' % module)
        m = _RE_STATES.findall(p.stdout)
        if p.returncode != 0 or not m:
            raise MachineryError('TLC rejects the specification %s (%s):\n%s'
                                 % (module, cfg, p.stdout[-3000:]))
        gen, dist, left = map(int, m[-1])
        cov = {}
        for a, n, t in re.findall(r'^<(\w+) line [^>]*>: (\d+):(\d+)', p.stdout, re.M):
            cov[a] = max(cov.get(a, 0), int(t))
        for a in must_cover:
            if cov.get(a, 0) == 0:
                raise MachineryError('action %s of %s was never taken: vacuous model' % (a, module))
        self.states += dist
        self.transitions += gen
        self.exhaustive.append(left == 0)
        self.notes.setdefault('models', []).append(
            {'module': module, 'cfg': os.path.basename(cfg), 'distinct_states': dist,
             'states_generated': gen, 'action_counts': cov})
        return p.stdout

    def refute(self, module, cfg, invariant, timeout=300):
        """TLC has to find a behaviour that breaks the invariant in the faulty variant of the design."""
        d = self.scratch('mc')
        cmd = _tlc_cmd(os.path.join(SPEC, module + '.tla'), os.path.join(SPEC, cfg + '.cfg'), d, ['-workers', '4'])
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        if 'Invariant %s is violated' % invariant not in p.stdout:
            raise MachineryError('the faulty design %s of %s is not refuted:\n%s' % (cfg, module, p.stdout[-2000:]))
        self.notes.setdefault('faulty_designs_refuted', []).append('%s/%s' % (module, cfg))

    # -- behaviours out of the specification
    def generate(self, module, num=None, depth=100, cfg=None, env=None, timeout=600, seed=None):
        """Behaviours/cases written by the spec (Kit!Emit) as JSON lines.

        num=None: exhaustive breadth-first run, every complete case once.
        num=N:    N random behaviours (-simulate).
        """
        d = self.scratch('gen')
        out = os.path.join(d, 'gen.ndjson')
        cfg = os.path.join(SPEC, (cfg or module) + '.cfg')
        extra = ['-workers', '1']
        if num is not None:
            extra += ['-simulate', 'num=%d' % num, '-depth', str(depth),
                      '-seed', str(self.seed if seed is None else seed)]
        cmd = _tlc_cmd(os.path.join(SPEC, module + '.tla'), cfg, d, extra)
        e = dict(os.environ)
        e.update(env or {})
        e['GEN_OUT'] = out
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out generating from %s' % module)
        if p.returncode != 0 or 'Error:' in p.stdout:
            raise MachineryError('TLC failed generating from %s:\n%s' % (module, p.stdout[-3000:]))
        m = _RE_STATES.findall(p.stdout)
        if m:
            self.states += int(m[-1][1])
            self.transitions += int(m[-1][0])
        else:
            m = _RE_SIM.findall(p.stdout)
            if m:
                self.notes['simulated_states'] = self.notes.get('simulated_states', 0) + int(m[-1])
        if not os.path.exists(out):
            raise MachineryError('specification %s generated nothing:\n%s' % (module, p.stdout[-2000:]))
        with open(out) as f:
            cases = [json.loads(l) for l in f if l.strip()]
        if not cases:
            raise MachineryError('specification %s generated nothing' % module)
        distinct = len(set(json.dumps(c, sort_keys=True) for c in cases))
        if len(cases) > 20 and distinct * 10 < len(cases):
            raise MachineryError('%s generated %d cases, only %d of them distinct' % (module, len(cases), distinct))
        self.notes.setdefault('generated', []).append({'module': module, 'cases': len(cases), 'distinct': distinct})
        return cases

    # -- trace validation
    def validate(self, module, events, cfg=None, shards=NPROC, timeout=800, env=None, key=None):
        """Check recorded events against the trace specification.

        Each shard is one trace.  `key(ev)` keeps events with the same key, in order, in one shard
        (stateful specifications); without it events are independent and dealt round robin.
        """
        if not events:
            if self.bad:        # every call failed; the verdict is already there
                return 0
            raise MachineryError('no events recorded for %s' % module)
        cfg = os.path.join(SPEC, (cfg or module) + '.cfg')
        shards = max(1, min(shards, len(events)))
        parts = [[] for _ in range(shards)]
        if key is None:
            for i, ev in enumerate(events):
                parts[i % shards].append(ev)
        else:
            groups = {}
            for ev in events:
                groups.setdefault(key(ev), []).append(ev)
            for k in groups:
                min(parts, key=len).extend(groups[k])
        parts = [p for p in parts if p]
        nbad = 0
        t_end = time.time() + timeout
        unbounded = []
        while parts:
            procs = [(part,) + self._start_validation(module, cfg, part, env) for part in parts]
            parts = []
            for part, p, log, d in procs:
                try:
                    p.wait(max(1, t_end - time.time()))
                except subprocess.TimeoutExpired:
                    for q in procs:
                        q[1].kill()
                    raise MachineryError('TLC timed out validating a trace against %s' % module)
                log.seek(0)
                out = log.read()
                log.close()
                done = re.search(r'DONE (\d+)', out)
                i = out.find('Error:')
                failed = p.returncode != 0 or done is None or int(done.group(1)) != len(part)
                at = re.findall(r'^(?:/\\ )?l = (\d+)', out[i:], re.M) if i >= 0 else []
                if failed and 'Overflow when computing' in out and at and int(at[-1]) <= len(part):
                    # values beyond everything the specification admits for the inputs of this event
                    n = int(at[-1]) - 1
                    self.bad.append((module, part[n], ['value-beyond-any-admitted-by-the-specification']))
                    unbounded.append(n)
                    nbad += 1
                    k = key(part[n]) if key else None
                    rest = [ev for j, ev in enumerate(part) if j != n and not (key and key(ev) == k)]
                    if rest and len(unbounded) < 25:
                        parts.append(rest)
                    continue
                if failed:
                    raise MachineryError('trace specification %s did not reach a verdict (%s of %s lines):\n%s'
                                         % (module, done and done.group(1), len(part),
                                            out[i:i + 3000] if i >= 0 else out[-3000:]))
                for m in re.finditer(r'^"?BAD (\{.*\})"?$', out, re.M):
                    txt = m.group(1)
                    try:
                        b = json.loads(txt)
                    except ValueError:
                        b = json.loads(txt.replace('\\"', '"').replace('\\\\', '\\'))
                    self.bad.append((module, part[b['line'] - 1], sorted(b['clauses'])))
                    nbad += 1
                self.validated += len(part)
                shutil.rmtree(d, ignore_errors=True)
        return nbad

    def _start_validation(self, module, cfg, part, env):
        d = self.scratch('val')
        tr = os.path.join(d, 'trace.ndjson')
        with open(tr, 'w') as f:
            for ev in part:
                f.write(json.dumps(ev, sort_keys=True, default=_plain) + '\n')
        e = dict(os.environ)
        e.update(env or {})
        e['TRACE'] = tr
        cmd = _tlc_cmd(os.path.join(SPEC, module + '.tla'), cfg, d, ['-workers', '1'])
        log = open(os.path.join(d, 'tlc.log'), 'w+')
        return subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, text=True), log, d

    def sample(self, *items):
        for it in items:
            if len(self.samples) < 4:
                self.samples.append(it)


def _plain(x):
    """NumPy scalars and arrays in events."""
    if hasattr(x, 'tolist'):
        return x.tolist()
    raise TypeError('%r in an event' % type(x))


# --------------------------------------------------------------------------- running the code

def code_frame(ex):
    """Innermost frame of the code under test in the traceback of ex, or None."""
    tb = ex.__traceback__
    last = None
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(os.path.join(REPO, 'rf') + os.sep):
            last = '%s:%s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return last


def _alarm(signum, frame):
    raise CaseTimeout()


def _call(args):
    func, item, limit = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = func(item)
        return ('ok', r)
    except CaseTimeout:
        return ('timeout', None)
    except BaseException as ex:
        last = code_frame(ex)
        rec = {'exc': exc_name(ex), 'message': str(ex)[:300], 'in': last or '',
               'case': repr(item)[:1500], 'traceback': traceback.format_exc()[-1500:]}
        if last is not None:        # the code under test raised where every input is valid
            return ('crash', (rec, 'code-raised-on-a-valid-call'))
        if not isinstance(ex, (MachineryError, MemoryError, OSError, KeyboardInterrupt, SystemExit)):
            # the code returned something that cannot be projected onto the specification's state
            return ('crash', (rec, 'result-cannot-be-observed'))
        # the driver itself failed: not a verdict
        return ('error', '%s\n%s' % (item if len(repr(item)) < 2000 else repr(item)[:2000],
                                     ''.join(traceback.format_exception(type(ex), ex, ex.__traceback__))))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def pmap(ctx, func, items, limit=60, procs=NPROC, chunk=None, own_process=False):
    """Run func over items in forked workers and return the events it recorded.

    func records the failures of the code under test that the specification talks about.  An exception
    that leaves func out of a frame of the code under test, where the specification knows only valid
    calls, breaks the clause "code-raised-on-a-valid-call", a call that does not come back breaks
    "call-did-not-end", a result of a kind that has no projection onto the specification's state breaks
    "result-cannot-be-observed"; running out of memory, disk and the like are machinery errors.
    """
    items = list(items)
    out = []
    ntimeout = 0
    if chunk is None:
        chunk = max(1, min(16, len(items) // (procs * 4) or 1))
    mctx = mp.get_context('fork')
    if own_process:     # every item in a newly forked process
        chunk = 1
    with mctx.Pool(procs, initializer=_init_worker, maxtasksperchild=1 if own_process else None) as pool:
        for i, (kind, r) in enumerate(pool.imap(_call, [(func, it, limit) for it in items], chunk)):
            if kind == 'error':
                pool.terminate()
                raise MachineryError('driver failed: %s' % r)
            if kind == 'timeout':
                ctx.bad.append(('driver', {'case': repr(items[i])[:1500], 'limit_s': limit},
                                ['call-did-not-end']))
                ntimeout += 1
                if ntimeout >= 3:
                    pool.terminate()
                    break
            elif kind == 'crash':
                ctx.bad.append(('driver', r[0], [r[1]]))
            else:
                out.append(r)
    return out


def _init_worker():
    import warnings
    warnings.simplefilter('ignore')
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout = open(os.devnull, 'w')


# --------------------------------------------------------------------------- encoding

INTMAX = 2000000000


def fx(x, scale=10**6):
    """Fixed point integer of a float, clamped into TLC's 32 bit; not-finite -> clamp."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return INTMAX
    if math.isnan(x):
        return -INTMAX
    v = x * scale
    if v > INTMAX:
        return INTMAX
    if v < -INTMAX:
        return -INTMAX
    return int(round(v))


def fxs(a, scale=10**6):
    return [fx(x, scale) for x in a]


def exc_name(ex):
    return type(ex).__name__


# --------------------------------------------------------------------------- verdict

def load_known():
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f) if k.get('status') == 'known']


def finish(ctx, level='model_checking', extra=None):
    known = [k for k in load_known() if k['property'] == ctx.prop]
    viol = []
    seen_known = {}
    for module, ev, clauses in ctx.bad:
        hit = None
        for k in known:
            if set(clauses) <= set(k['clauses']) and all(ev.get(a) == b for a, b in k.get('event', {}).items()):
                hit = k
                break
        if hit is not None:
            seen_known[hit['what']] = True
        else:
            viol.append((module, ev, clauses))
    for k in known:
        # listed findings are reported whether or not this run met them
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k['what']))
    if os.environ.get('RFCHECK_DUMP'):
        with open(os.environ['RFCHECK_DUMP'], 'w') as f:
            json.dump(viol, f, default=_plain)
    rdir = os.path.join(VERIF, 'replays')
    for n in range(8):
        old = os.path.join(rdir, '%s_%s_%d.json' % (ctx.prop, ctx.tier, n))
        if os.path.exists(old):
            os.remove(old)
    groups = {}
    for module, ev, clauses in viol:
        groups.setdefault(tuple(clauses), []).append((module, ev))
    for n, (clauses, evs) in enumerate(sorted(groups.items())):
        if n >= 8:
            break
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%s_%d.json' % (ctx.prop, ctx.tier, n))
        with open(path, 'w') as f:
            json.dump({'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'clauses': list(clauses),
                       'trace_spec': evs[0][0], 'events_with_these_clauses': len(evs),
                       'event': evs[0][1]}, f, indent=1, default=_plain)
        print('VIOLATION property=%s replay=%s clauses=%s (%d events)'
              % (ctx.prop, path, ','.join(clauses), len(evs)))
    cov = {'states': ctx.states, 'transitions': ctx.transitions,
           'traces_validated_against_impl': ctx.validated,
           'samples': ctx.samples or ['none'],
           'exhaustive': bool(ctx.exhaustive) and all(ctx.exhaustive)}
    cov.update(ctx.notes)
    if extra:
        cov.update(extra)
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2),
          'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d states, %d transitions, %d events validated, %d violations, %.1f s'
          % (ctx.prop, ctx.tier, ctx.states, ctx.transitions, ctx.validated, len(viol),
             time.time() - ctx.t0))
    return 1 if viol else 0
