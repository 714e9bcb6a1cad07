"""Runs one simulated execution (or a history of them), and the search over seeds around it."""
import hashlib, json, os, random, re, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, '.build')
LIB = os.path.join(BUILD, 'libsim.so')
BIN = {
    'cli': os.path.join(BUILD, 'target/release/osmgraphing-sim'),
    'mchc': os.path.join(BUILD, 'target/release/mchc-sim'),
    'api': os.path.join(BUILD, 'target/release/apirun'),
}
FIELDS = ('magic events guards switches preempts forced hash mono threads maxlive io_ops opens reads writes '
          'bytes_written clock_reads futex_waits futex_wakes n_short n_eintr n_wshort n_spur n_fault n_jump '
          'n_enospc n_race crashed deadlock stall ndec exited spawns bytes_read atomics').split()
HEAD = struct.Struct('<%dQ' % len(FIELDS))
NFAULT = 256
DEC = struct.Struct('<IiQ')
KIND = {1: 'P', 2: 'F', 3: 'I', 4: 'S'}
MAXEV = 300_000_000
WALL = 60.0
SCALARS = ('seed', 'period', 'psync', 'depth', 'horizon', 'victim', 'ncpu', 'maxev', 'real', 'mono', 'slow',
           'pshort', 'peintr', 'pwshort', 'chunk', 'pspur', 'quota', 'addr')


class HarnessError(Exception):
    pass


class Result:
    """What one simulated process did."""
    def __init__(self, rc, out, err, st, hits, decs, timed_out):
        self.rc, self.out, self.err, self.st, self.hits, self.decs, self.timed_out = rc, out, err, st, hits, decs, timed_out

    @property
    def ok(self):
        return self.rc == 0

    @property
    def crashed(self):
        return self.rc == 99 and bool(self.st.get('crashed'))

    @property
    def hung(self):
        return self.timed_out or self.rc in (96, 97)

    @property
    def failed(self):
        """An orderly error: the program said so by its exit status."""
        return not self.ok and not self.hung and not self.crashed and self.rc == 101

    def how(self):
        if self.timed_out:
            return 'did not end in time'
        if self.rc == 96:
            return 'deadlock: every thread waits'
        if self.rc == 97:
            return 'no end within %d events' % self.st.get('events', 0)
        if self.rc == 0:
            return 'success'
        if self.crashed:
            return 'simulated crash'
        if self.rc < 0:
            return 'killed by signal %d' % -self.rc
        t = [l for l in self.err.splitlines() if l.strip()]
        return 'exit status %d (%s)' % (self.rc, t[0][:200] if t else '')


def write_plan(path, plan, root, out):
    L = ['root ' + root, 'out ' + out]
    L.append('mode ' + plan.get('mode', 'rr'))
    if 'maxev' not in plan:
        L.append('maxev %d' % MAXEV)
    for k in SCALARS:
        if k in plan:
            L.append('%s %d' % (k, plan[k]))
    for nth, ns in plan.get('jumps', ()):
        L.append('jump %d %d' % (nth, ns))
    for op, sub, nth, act, arg in plan.get('faults', ()):
        L.append('fault %s %s %d %s %d' % (op, sub, nth, act, arg))
    if 'replay' in plan:
        L.append('replay')
        for k, i, v in plan['replay']:
            L.append('%s %d %d' % (k, i, v))
    with open(path, 'w') as f:
        f.write('\n'.join(L) + '\n')


class World:
    """A scratch directory in which the processes of one scenario run, one after another."""
    def __init__(self, base, scn, want_decs=False):
        self.scn = scn
        self.want_decs = want_decs
        self.dir = tempfile.mkdtemp(prefix='w', dir=base)
        self.root = os.path.join(self.dir, 'r')
        os.mkdir(self.root)
        self.runs = []      # (plan key, Result)
        self.recorded = {}  # plan key -> decisions
        self.measure = {}   # free counters of the property

    def close(self):
        subprocess.call(['chmod', '-R', 'u+rwx', self.dir]) if False else None
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.root, name)

    def write(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())

    def read(self, name):
        try:
            with open(self.path(name), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def text(self, name):
        b = self.read(name)
        return None if b is None else b.decode('utf-8', 'replace')

    def exists(self, name):
        return os.path.lexists(self.path(name))

    def remove(self, name):
        p = self.path(name)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        elif os.path.lexists(p):
            os.remove(p)

    def files(self, sub=''):
        out = {}
        top = os.path.join(self.root, sub)
        for d, _, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out

    def count(self, k, n=1):
        self.measure[k] = self.measure.get(k, 0) + n

    def run(self, prog, args, key=None, plan=None, env=None, wall=None):
        """Runs one process.  The plan is the scenario's plan `key`, so that a replay can replace it."""
        if plan is None:
            plan = self.scn.get('plans', {}).get(key, {}) if key else {}
        n = len(self.runs)
        pf, of = os.path.join(self.dir, 'plan%d' % n), os.path.join(self.dir, 'out%d' % n)
        so, se = os.path.join(self.dir, 'stdout'), os.path.join(self.dir, 'stderr')
        write_plan(pf, plan, self.root + '/', of)
        e = {'PATH': os.path.join(self.root, 'bin') + ':/usr/bin:/bin', 'HOME': self.root, 'LD_PRELOAD': LIB, 'SIM_PLAN': pf,
             'RUST_BACKTRACE': '0', 'TZ': 'UTC', 'LC_ALL': 'C'}
        if plan.get('addr'):
            e['SIM_PAD'] = 'x' * (plan['addr'] % 4079)
        e.update(env or {})
        timed_out = False
        with open(so, 'wb') as fo, open(se, 'wb') as fe:
            p = subprocess.Popen([BIN[prog]] + list(args), cwd=self.root, env=e, stdin=subprocess.DEVNULL,
                                 stdout=fo, stderr=fe, start_new_session=True)
            try:
                rc = p.wait(wall or WALL)
            except subprocess.TimeoutExpired:
                timed_out = True
                rc = -9
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        with open(so, 'rb') as f:
            out = f.read(200_000_000).decode('utf-8', 'replace')
        with open(se, 'rb') as f:
            err = f.read(200_000).decode('utf-8', 'replace')
        st, hits, decs = {}, [], []
        try:
            with open(of, 'rb') as f:
                b = f.read(HEAD.size)
                st = dict(zip(FIELDS, HEAD.unpack(b)))
                hits = list(struct.unpack('<%dQ' % NFAULT, f.read(8 * NFAULT)))[:max(1, len(plan.get('faults', ())))]
                if self.want_decs:
                    raw = f.read(DEC.size * st['ndec'])
                    for k, v, i in DEC.iter_unpack(raw):
                        decs.append([KIND[k], i, v])
            os.remove(of)
        except (OSError, struct.error):
            raise HarnessError('no statistics of a run: rc %s, %s' % (rc, err[:500]))
        if not st['events']:
            raise HarnessError('a run without the simulator: rc %s, %s' % (rc, err[:500]))
        if rc == 95 or re.search(r'(?m)^sim: ', err[:2000]):
            raise HarnessError('simulator: ' + err[:500])
        if rc in (126, 127):
            raise HarnessError('cannot run %s: %s' % (prog, err[:500]))
        os.remove(pf)
        r = Result(rc, out, err, st, hits, decs, timed_out)
        self.runs.append((key, plan, r))
        if key and self.want_decs:
            self.recorded[key] = decs
        return r

    def cli(self, cfg, flags, key=None, **kw):
        plan = kw.get('plan') or (self.scn.get('plans', {}).get(key, {}) if key else {})
        return self.run('cli', ['-c', cfg, '-l', plan.get('log', 'ERROR')] + list(flags), key, **kw)

    def api(self, script, key=None, **kw):
        name = 'script%d.txt' % len(self.runs)
        self.write(name, script)
        return self.run('api', [name], key, **kw)


# ---------------------------------------------------------------- one scenario
class V:
    """A violation: a stable kind, and what was observed."""
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


def base_dir():
    d = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    try:
        s = os.statvfs(d)
        if s.f_bavail * s.f_frsize < 2 << 30:
            d = tempfile.gettempdir()
    except OSError:
        pass
    return d


def execute(prop, scn, base, want_decs=False):
    """Runs a scenario and judges it: (violations, summary)."""
    W = World(base, scn, want_decs)
    try:
        try:
            vs = list(prop.judge(scn, W) or ())
        except HarnessError:
            raise
        except (ValueError, LookupError, TypeError, ArithmeticError, AttributeError, RecursionError) as e:
            # nothing of the kind happens with well-formed output
            tb = traceback.extract_tb(e.__traceback__)[-1]
            vs = [V('uninterpretable', 'the oracle cannot interpret what the program left: %s: %s (%s line %d)' % (
                type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))]
        s = {'runs': len(W.runs), 'measure': W.measure, 'recorded': W.recorded}
        tot = {}
        h = hashlib.sha256()
        fired = {}
        for key, plan, r in W.runs:
            for k in FIELDS[1:]:
                if k in ('hash', 'maxlive', 'exited', 'mono'):
                    continue
                tot[k] = tot.get(k, 0) + r.st[k]
            tot['simtime'] = tot.get('simtime', 0) + max(0, r.st['mono'] - plan.get('mono', 1_000_000_000))
            tot['maxlive'] = max(tot.get('maxlive', 0), r.st['maxlive'])
            h.update(struct.pack('<QQQ', r.st['hash'], r.st['switches'], r.st['io_ops']))
            for f, n in zip(plan.get('faults', ()), r.hits):
                if n:
                    name = '%s:%s' % (f[0], f[3] + ('=%d' % f[4] if f[3] in ('err', 'stick') else ''))
                    fired[name] = fired.get(name, 0) + 1
        for k, name in (('n_short', 'short_read'), ('n_eintr', 'EINTR'), ('n_wshort', 'short_write'), ('n_spur', 'spurious_wakeup'),
                        ('n_jump', 'clock_jump'), ('n_enospc', 'disk_full'), ('n_race', 'file_created_by_other'), ('preempts', 'preemption')):
            if tot.get(k):
                fired[name] = fired.get(name, 0) + tot[k]
        s['tot'], s['fired'], s['hash'] = tot, fired, h.hexdigest()[:16]
        return vs, s
    finally:
        W.close()


_prop = None
_base = None


def _init(prop, base):
    global _prop, _base
    _prop, _base = prop, base
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(job):
    i, seed, tier, twice = job
    scn = None
    try:
        scn = _prop.make(i, seed, tier)
        vs, s = execute(_prop, scn, _base)
        s['key'] = hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:16]
        s['nontrivial'] = bool(_prop.nontrivial(scn, s))
        if twice:
            _, s2 = execute(_prop, scn, _base)
            s['same'] = s2['hash'] == s['hash']
        s.pop('recorded')
        s['i'] = i
        s['violations'] = [(v.kind, v.msg) for v in vs]
        if vs or i < 3:
            s['scn'] = scn
        return s
    except HarnessError as e:
        return {'i': i, 'error': 'HarnessError: %s' % e}
    except Exception as e:
        return {'i': i, 'error': traceback.format_exc()}


# ---------------------------------------------------------------- shrinking
def get_path(o, path):
    for k in path:
        if o is None:
            return None
        o = o.get(k) if isinstance(o, dict) else (o[k] if k < len(o) else None)
    return o


def set_path(o, path, v):
    o = json.loads(json.dumps(o))
    x = o
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v
    return o


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        done = False
        for a in range(0, len(items), size):
            if time.time() > deadline:
                return items
            cand = items[:a] + items[a + size:]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                done = True
                break
        if not done:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


class Shrinker:
    def __init__(self, prop, base, kind, budget):
        self.prop, self.base, self.kind = prop, base, kind
        self.deadline = time.time() + budget
        self.tries = 0

    def fails(self, scn):
        self.tries += 1
        try:
            if not self.prop.valid(scn):
                return False
            vs, _ = execute(self.prop, scn, self.base)
        except HarnessError:
            return False
        except Exception:
            return False
        return any(v.kind == self.kind for v in vs)

    def lists(self, scn):
        for path in self.prop.shrink_lists(scn):
            items = get_path(scn, path)
            if not items:
                continue
            items = ddmin(list(items), lambda c: self.fails(set_path(scn, path, c)), self.deadline)
            scn = set_path(scn, path, items)
        return scn

    def scalars(self, scn):
        for key in list(scn.get('plans', {})):
            p = scn['plans'][key]
            cands = [{}]
            for drop in (('jumps',), ('slow',), ('pspur',), ('pshort', 'peintr', 'chunk'), ('pwshort',), ('quota',), ('real',)):
                cands.append({k: v for k, v in p.items() if k not in drop})
            for c in cands:
                if time.time() > self.deadline:
                    return scn
                if c == scn['plans'][key]:
                    continue
                if cands.index(c):
                    c = {k: v for k, v in scn['plans'][key].items() if k in c}
                t = set_path(scn, ['plans', key], c)
                if self.fails(t):
                    scn = t
            f = scn['plans'][key].get('faults')
            if f:
                f = ddmin(list(f), lambda c: self.fails(set_path(scn, ['plans', key, 'faults'], c)), self.deadline)
                scn = set_path(scn, ['plans', key, 'faults'], f)
        return scn

    def decisions(self, scn):
        """Replaces the random choices by the recorded ones, and drops those that are not needed."""
        vs, s = execute(self.prop, scn, self.base, want_decs=True)
        if not any(v.kind == self.kind for v in vs):
            return scn
        t = scn
        for key, decs in s['recorded'].items():
            if len(decs) >= 400000:
                return scn
            p = dict(t['plans'].get(key, {}))
            p['replay'] = decs
            t = set_path(t, ['plans', key], p) if key in t.get('plans', {}) else t
        if not self.fails(t):
            return scn
        for key in s['recorded']:
            if key not in t.get('plans', {}):
                continue
            path = ['plans', key, 'replay']
            d = ddmin(list(get_path(t, path)), lambda c: self.fails(set_path(t, path, c)), self.deadline)
            t = set_path(t, path, d)
            p = {k: v for k, v in t['plans'][key].items() if k not in ('period', 'psync', 'depth', 'horizon', 'pshort', 'peintr', 'pwshort', 'pspur')}
            p['mode'] = 'rr'
            u = set_path(t, ['plans', key], p)
            if self.fails(u):
                t = u
        return t


# ---------------------------------------------------------------- a check
def load_known(path=os.path.join(VERIF, 'known-findings.jsonl')):
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and not l.startswith('#'):
                out.append(json.loads(l))
    return out


def check(prop, tier, seed, out=sys.stdout):
    t0 = time.time()
    n = prop.counts[tier]
    cap = prop.wall[tier]
    base = tempfile.mkdtemp(prefix='vsim.', dir=base_dir())
    known = [k for k in load_known() if k.get('status') == 'known' and k.get('property') == prop.id]
    agg = {'runs': 0, 'tot': {}, 'fired': {}, 'fired_scn': {}, 'measure': {}}
    hashes, keys, nontriv = set(), set(), set()
    errors, bad, samples, known_hit = [], [], [], {}
    selfcheck = same = 0
    done = 0
    try:
        ctx = get_context('fork')
        jobs = ((i, seed, tier, i % prop.twice_every == 1) for i in range(n))
        with ctx.Pool(min(8, os.cpu_count() or 8), _init, (prop, base)) as pool:
            for s in pool.imap_unordered(_work, jobs, chunksize=1):
                done += 1
                if 'error' in s:
                    errors.append(s)
                    if len(errors) > 3:
                        break
                    continue
                agg['runs'] += s['runs']
                for k, v in s['tot'].items():
                    agg['tot'][k] = max(agg['tot'].get(k, 0), v) if k == 'maxlive' else agg['tot'].get(k, 0) + v
                for k, v in s['fired'].items():
                    agg['fired'][k] = agg['fired'].get(k, 0) + v
                    agg['fired_scn'][k] = agg['fired_scn'].get(k, 0) + 1
                for k, v in s['measure'].items():
                    agg['measure'][k] = agg['measure'].get(k, 0) + v
                hashes.add(s['hash'])
                keys.add(s['key'])
                if s['nontrivial']:
                    nontriv.add((s['key'], s['hash']))
                if 'same' in s:
                    selfcheck += 1
                    same += s['same']
                if 'scn' in s and len(samples) < 3 and not s['violations']:
                    samples.append({'index': s['i'], 'scenario': abbreviate(s['scn']), 'execution': s['hash'], 'runs': s['runs'],
                                    'switches': s['tot'].get('switches', 0), 'faults': s['fired']})
                for kind, msg in s['violations']:
                    k = next((k for k in known if k['kind'] == kind and k.get('match', '') in msg), None)
                    if k:
                        known_hit[k['what']] = known_hit.get(k['what'], 0) + 1
                    else:
                        bad.append((s['i'], kind, msg, s['scn']))
                if len(bad) >= 4 or time.time() - t0 > cap:
                    break
            pool.terminate()
        for w in known_hit:
            print('KNOWN-FINDING: property=%s %s' % (prop.id, w), file=out)
        rc = 0
        nviol = len({k for _, k, _, _ in bad})
        if bad:
            bad.sort(key=lambda b: b[0])
            i, kind, msg, scn = bad[0]
            print('violation in scenario %d (seed %d): %s: %s' % (i, seed, kind, msg), file=out)
            rp = report(prop, tier, seed, i, kind, msg, scn, base, 90 if tier == 'quick' else 300, out)
            print('VIOLATION property=%s replay=%s' % (prop.id, rp), file=out)
            rc = 1
        elif errors:
            for e in errors[:3]:
                print('harness error in scenario %d: %s' % (e['i'], e['error']), file=sys.stderr)
            rc = 3
        wall = time.time() - t0
        ev = {
            'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': done,
                'distinct_nontrivial': len(nontriv),
                'rule': prop.rule,
                'samples': samples or [{'scenario': abbreviate(b[3])} for b in bad[:1]],
                'planned_scenarios': n,
                'distinct_scenarios': len(keys),
                'simulated_processes': agg['runs'],
                'seeds_per_hour': round(done / wall * 3600),
                'simulated_processes_per_hour': round(agg['runs'] / wall * 3600),
                'simulated_seconds': round(agg['tot'].get('simtime', 0) / 1e9, 3),
                'distinct_interleavings': len(hashes),
                'interleaving_measure': 'hash over every context switch, futex wait and wake, thread start and end, I/O call and fault with the thread doing it, per scenario',
                'events': agg['tot'].get('events', 0),
                'passed_edges': agg['tot'].get('guards', 0),
                'passed_atomic_operations': agg['tot'].get('atomics', 0),
                'context_switches': agg['tot'].get('switches', 0),
                'threads_started': agg['tot'].get('threads', 0),
                'most_threads_alive': agg['tot'].get('maxlive', 0),
                'io_calls': agg['tot'].get('io_ops', 0),
                'faults_injected': agg['fired'],
                'scenarios_with_fault': agg['fired_scn'],
                'checked': agg['measure'],
                'determinism_selfcheck': {'executed_twice': selfcheck, 'identical': same},
                'real_components': prop.real,
                'stub_components': prop.stub,
                'known_findings_met': known_hit,
            },
            'assumptions': prop.assumptions,
            'wall_s': round(wall, 2),
            'violations': nviol,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        if same != selfcheck:
            print('warning: %d of %d repeated executions differed' % (selfcheck - same, selfcheck), file=sys.stderr)
        print('%s: %d scenarios, %d simulated processes, %d distinct interleavings, %.1f s: %s' %
              (prop.id, done, agg['runs'], len(hashes), wall, 'VIOLATED' if rc == 1 else 'held' if rc == 0 else 'ERROR'), file=out)
        return rc
    finally:
        shutil.rmtree(base, ignore_errors=True)


def abbreviate(o, n=12):
    if isinstance(o, list):
        r = [abbreviate(x, n) for x in o[:n]]
        return r + ['... %d more' % (len(o) - n)] if len(o) > n else r
    if isinstance(o, dict):
        return {k: abbreviate(v, n) for k, v in o.items()}
    if isinstance(o, str) and len(o) > 400:
        return o[:400] + '... %d more' % (len(o) - 400)
    return o


def report(prop, tier, seed, i, kind, msg, scn, base, budget, out):
    sh = Shrinker(prop, base, kind, budget)
    small = scn
    if sh.fails(scn):
        small = sh.scalars(small)
        small = sh.lists(small)
        small = sh.decisions(small)
    else:
        print('note: not reproduced when executed again', file=out)
    vs, s = execute(prop, small, base)
    m = next((v.msg for v in vs if v.kind == kind), msg)
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, '%s-%s-%d-%d.json' % (prop.id, tier, seed, i))
    with open(rp, 'w') as f:
        json.dump({'property': prop.id, 'tier': tier, 'seed': seed, 'index': i, 'kind': kind, 'observed': m, 'execution': s['hash'],
                   'original_observation': msg, 'shrink_steps': sh.tries, 'scenario': small}, f, indent=1)
        f.write('\n')
    vs2, s2 = execute(prop, small, base)
    again = any(v.kind == kind for v in vs2) and s2['hash'] == s['hash']
    print('minimised in %d steps; replay %s: %s: %s' % (sh.tries, 'reproduces exactly' if again else 'DIFFERS', kind, m), file=out)
    return rp


def replay(prop, path, out=sys.stdout):
    o = json.load(open(path))
    base = tempfile.mkdtemp(prefix='vsim.', dir=base_dir())
    try:
        vs, s = execute(prop, o['scenario'], base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    hit = [v for v in vs if v.kind == o['kind']]
    print('execution %s, recorded %s' % (s['hash'], o['execution']), file=out)
    for v in vs:
        print('%s: %s' % (v.kind, v.msg), file=out)
    if hit:
        print('VIOLATION property=%s replay=%s' % (prop.id, path), file=out)
        return 1
    print('not reproduced', file=out)
    return 0


class Prop:
    """Base class of a property's scenarios and oracle."""
    id = ''
    counts = {'quick': 100, 'thorough': 3000}
    wall = {'quick': 100, 'thorough': 3000}
    twice_every = 40
    rule = ''
    real = []
    stub = []
    assumptions = []

    def make(self, i, seed, tier):
        return self.gen(random.Random('%s/%d/%d' % (self.id, seed, i)), i, tier)

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def judge(self, scn, W):
        raise NotImplementedError

    def nontrivial(self, scn, s):
        return s['tot'].get('switches', 0) > 0 or bool(s['fired'])

    def shrink_lists(self, scn):
        return []

    def valid(self, scn):
        return True


# ---------------------------------------------------------------- plans
def sched(rng, threads=True):
    """A random way to schedule threads."""
    p = {'seed': rng.getrandbits(48), 'ncpu': rng.choice([1, 2, 2, 3, 4, 8])}
    m = rng.choice(['rand', 'rand', 'rand', 'pct', 'pct', 'starve', 'rr']) if threads else 'rr'
    p['mode'] = m
    if m == 'rand':
        p['period'] = rng.choice([30, 300, 3000, 30000, 0])
        p['psync'] = rng.choice([0, 50, 300, 700, 1000])
    elif m == 'pct':
        p['depth'] = rng.randint(1, 8)
        p['horizon'] = rng.choice([2000, 20000, 200000, 1500000])
    elif m == 'starve':
        p['victim'] = rng.randint(0, 5)
    if threads and rng.random() < .4:
        p['pspur'] = rng.choice([20, 200, 500])
    p['addr'] = 1 + p['seed'] * 2654435761 % 0x7ffffff1     # layout of the address space
    if p['seed'] % 7 == 0:
        # what is told about the work does not change the work
        p['log'] = ['INFO', 'DEBUG', 'TRACE', 'warn'][p['seed'] // 7 % 4]
    return p


def clocks(rng, p):
    if rng.random() < .5:
        p['real'] = rng.randint(1_000_000_000, 2_000_000_000) * 10**9
    if rng.random() < .35:
        p['jumps'] = [[rng.randint(1, 40), rng.choice([-86400, -3600, -1, 1, 3600, 10**7]) * 10**9] for _ in range(rng.randint(1, 3))]
    if rng.random() < .4:
        p['slow'] = rng.choice([0, 10**6, 10**8, 10**10])
    return p


def noise(rng, p, heavy=None, read=True, write=True):
    """Benign I/O behaviour every program has to cope with: short transfers and interrupted calls."""
    if heavy is None:
        heavy = rng.random() < .7
    if heavy:
        if read:
            p['pshort'] = rng.choice([50, 300, 800, 1000])
        if write:
            p['pwshort'] = rng.choice([50, 300, 800, 1000])
        if rng.random() < .6:
            p['peintr'] = rng.choice([20, 200, 500])
        p['chunk'] = rng.choice([1, 3, 17, 200, 4000])
    return p


ERR = {'EIO': 5, 'ENOSPC': 28, 'EACCES': 13, 'EMFILE': 24, 'ENOENT': 2, 'EDQUOT': 122, 'EROFS': 30, 'EAGAIN': 11, 'ENOMEM': 12, 'EFBIG': 27, 'EISDIR': 21, 'EPIPE': 32}
