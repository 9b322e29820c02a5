#!/usr/bin/env python3
"""check.py <property>            decide one property on /repo's working tree
   check.py --replay FILE         run a recorded counterexample again

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Any other exit is an error of the check.  See DESIGN.md."""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC, HARNESS = ROOT + '/spec', ROOT + '/harness'
JAR = '/opt/veriftools/tla/tla2tools.jar'
DEPS = '/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
T0 = time.time()
CORES = os.cpu_count() or 4
ENV = dict(os.environ)
ENV.update(HOME=ENV.get('HOME') or '/root', GOTOOLCHAIN='local', GOFLAGS='-mod=readonly', GOPROXY='off', GO111MODULE='on', GOWORK='off')
ENV['PATH'] = '/opt/veriftools/go1.27.3/bin:' + ENV.get('PATH', '/usr/bin:/bin')
for v in ('GOROOT', 'JAVA_TOOL_OPTIONS', '_JAVA_OPTIONS'):
    ENV.pop(v, None)
BUDGET = 840 if TIER == 'quick' else 4 * 3600

RACE = {'C22'}
MODE = {'C03': 'lax'}       # only acceptance and refusal count
sys.path.insert(0, ROOT + '/tools')
from models import MODELS  # property -> model-checking runs


class Broken(Exception):
    """the check itself does not work"""


def note(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def left():
    return BUDGET - (time.time() - T0)


def run(cmd, cwd=None, env=None, timeout=None, limit_as=None, out=None):
    def pre():
        os.setpgid(0, 0)
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT if not out else out,
                         preexec_fn=pre, stdin=subprocess.DEVNULL)
    try:
        o, _ = p.communicate(timeout=timeout or max(30, left()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        raise Broken('timed out: ' + ' '.join(cmd[:4]))
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    return p.returncode, (o or b'').decode('utf-8', 'replace')


class Work:
    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return self.dir + '/' + name

    def build(self):
        self.drv = self.path('driver')
        cmd = ['go', 'build', '-o', self.drv]
        if self.prop in RACE:
            cmd.insert(2, '-race')
        rc, o = run(cmd + ['.'], cwd=HARNESS)
        if rc:
            raise Broken('driver does not build\n' + o)
        self.gen = self.drv
        self.cls = self.path('cls')
        os.mkdir(self.cls)
        rc, o = run(['javac', '-nowarn', '-cp', JAR, '-d', self.cls] + sorted(glob.glob(SPEC + '/java/*.java')))
        if rc:
            raise Broken('javac\n' + o)

    def plan(self):
        p = self.path('plan')
        rc, o = run([self.drv, 'gen', '-prop', self.prop, '-seed', str(SEED), '-tier', TIER, '-out', p])
        if rc:
            raise Broken('generator\n' + o)
        return p

    # ---- running a plan on the real code ----
    def execute(self, plan, limit=10):
        """returns (list of trace lines, race reports)"""
        self.n += 1
        cases = [l for l in open(plan)]
        out = self.path('trace%d' % self.n)
        start, crashes = 0, 0
        env = dict(ENV)
        racelog = None
        if self.prop in RACE:
            racelog = self.path('race%d' % self.n)
            env['GORACE'] = 'log_path=%s halt_on_error=0 exitcode=0 history_size=3' % racelog
        env['GOTRACEBACK'] = 'single'
        while True:
            cmd = [self.drv, 'exec', '-plan', plan, '-out', out, '-limit', str(limit), '-from', str(start)]
            rc, o = run(cmd, env=env, limit_as=None if racelog else 12 << 30)
            if rc == 0:
                break
            if rc == 3:
                raise Broken('driver: ' + o[-2000:])
            # the process died: find the call, record the crash, go on with the next case
            i = int(open(out + '.progress').read().split()[0])
            crashes += 1
            note('process died in case', i + 1, 'of the plan')
            start = self.record_crash(cases, i, out, env, racelog, o)
            if crashes >= 3 or start >= len(cases):
                break
        reports = []
        if racelog:
            for f in sorted(glob.glob(racelog + '.*')):
                reports += split_races(open(f, errors='replace').read())
        lines = open(out).read().splitlines()
        return lines, reports

    def record_crash(self, cases, i, out, env, racelog, text):
        c = json.loads(cases[i])
        if c.get('mode') == 'conc':
            j = i
            while j < len(cases) and json.loads(cases[j]).get('group') == c['group'] and json.loads(cases[j]).get('mode') == 'conc':
                j += 1
            if 'github.com/libsv/libsv/' not in text:
                raise Broken('process died outside the library\n' + text[-3000:])
            with open(out, 'a') as f:
                f.write(json.dumps({'case': c['case'], 'mode': '', 'ev': [{'op': 'race', 'a': {'report': text[:4000].encode().hex()}, 'r': {'k': 'crash'}, 'ch': []}]}) + '\n')
            return j
        one = self.path('one')
        open(one, 'w').write(cases[i])
        tr = self.path('one.trace')
        if os.path.exists(tr):
            os.remove(tr)
        rc, o = run([self.drv, 'exec', '-plan', one, '-out', tr, '-sync'], env=env, limit_as=None if racelog else 12 << 30)
        if rc == 0:
            raise Broken('a crash that does not happen again\n' + text[-3000:])
        k = int(open(tr + '.progress').read().split()[1])
        if 'github.com/libsv/libsv/' not in o and 'out of memory' not in o:
            raise Broken('process died outside the library\n' + o[-3000:])
        if os.path.exists(tr):
            os.remove(tr)
        rc, o = run([self.drv, 'exec', '-plan', one, '-out', tr, '-crash-at', str(k)], env=env)
        if rc:
            raise Broken('crash record\n' + o)
        with open(out, 'a') as f:
            f.write(open(tr).read())
        return i + 1

    # ---- TLC ----
    def tlc(self, spec, cfg, trace=None, workers=None, extra=(), timeout=None, heap='6g', cases=None, limit=0):
        meta = tempfile.mkdtemp(dir=self.dir)
        env = dict(ENV)
        if cases:
            env.update(CASES=cases, LIMIT=str(limit))
        if trace:
            env['TRACE'] = trace
        env['SEED'] = str(SEED)
        env['PROP'] = self.prop
        cmd = ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', '%s:%s:%s' % (self.cls, JAR, DEPS), 'tlc2.TLC',
               '-workers', str(workers or CORES), '-noGenerateSpecTE', '-metadir', meta, '-config', cfg] + list(extra) + [spec]
        rc, o = run(cmd, cwd=SPEC, env=env, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', o)
        return rc, o, (int(m.group(1)), int(m.group(2))) if m else (0, 0)

    def validate(self, lines):
        """TLC on recorded cases: rejected events [(case index, event index, explanation)], states"""
        rejects, states, trans = [], 0, 0
        chunk = []
        size = 0
        chunks = []
        for i, l in enumerate(lines):
            if chunk and (size + len(l) > 40_000_000 or len(chunk) >= 4000):
                chunks.append(chunk)
                chunk, size = [], 0
            chunk.append((i, l))
            size += len(l)
        if chunk:
            chunks.append(chunk)
        for ch in chunks:
            f = self.path('chunk')
            want = 0
            ids = {}
            with open(f, 'w') as w:
                for k, (i, l) in enumerate(ch):
                    c = json.loads(l)
                    want += 1 + len(c['ev'])
                    c['case'] = k + 1
                    ids[k + 1] = i
                    w.write(json.dumps({'case': c['case'], 'mode': c.get('mode', ''), 'ev': c['ev']}) + '\n')
            rc, o, (gen, dist) = self.tlc('Trace.tla', 'Trace.cfg', trace=f)
            if 'No error has been found' not in o:
                raise Broken('TLC\n' + tail(o))
            rej = []
            for m in re.finditer(r'<<"REJECT", (\d+), (\d+), "(.*?)">>', o, re.S):
                rej.append((ids[int(m.group(1))], int(m.group(2)) - 1, m.group(3).replace('\n', '')))
            if not rej and dist != want:
                raise Broken('TLC saw %d states of %d recorded ones\n%s' % (dist, want, tail(o)))
            if o.count('"REJECT"') != len(rej):
                raise Broken('cannot read the verdict\n' + tail(o))
            states += dist
            trans += dist - len(ch)
            rejects += rej
        rejects.sort()
        return rejects, states, trans


def tail(o):
    o = '\n'.join(l for l in o.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Loading', 'Progress')))
    return o[-3500:]


def split_races(text):
    r = []
    for b in text.split('==================\n'):
        if 'DATA RACE' in b:
            r.append(b)
    return r


def in_library(report):
    return 'github.com/libsv/libsv/' in report


def known(prop):
    k = {}
    for l in open(ROOT + '/known_findings.txt'):
        m = re.match(r'open: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            k[m.group(2)] = m.group(3).strip()
    return k


def key_of(ev):
    """identity of a failing call: operation and arguments"""
    return ev['op'] + ':' + hashlib.sha256(json.dumps(ev['a'], sort_keys=True).encode()).hexdigest()[:16]


GROUPS = 1000000          # numbers of the groups of concurrent cases made by models
PURE = re.compile(r'^(?!tx_new|tx_load|tx_make|signer$|val$|tx_from|tx_add|tx_payto|tx_apply|tx_edit|tx_info|tx_bytes|tx_sighash|tx_sign|tx_verify|s_|rs_|seal$|sealbuf|seal_proc|race|unseal$|iv_stats|call$|overwrite|drop)')


def enumerated(f, name, start, mode):
    """the cases a model wrote out, as cases of the plan: calls without receiver in batches, others one by one"""
    seen = open(f).read().splitlines() if os.path.exists(f) else ['0']
    total = int(seen[0])
    plan, batch = [], []

    def add(ev):
        plan.append(json.dumps({'case': start + len(plan), 'mode': mode, 'tag': name, 'ev': ev}) + '\n')
    calls = groups = 0
    for l in sorted(seen[1:]):
        ev = json.loads(l)
        if isinstance(ev, dict):      # threads to run at the same time, on what setup makes
            groups += 1
            for t in ev['threads']:
                calls += len(t)
                plan.append(json.dumps({'case': start + len(plan), 'mode': 'conc', 'group': GROUPS + groups, 'share': len(ev['setup']),
                                        'tag': name, 'ev': ev['setup'] + t}) + '\n')
            continue
        calls += len(ev)
        if all(PURE.match(e['op']) for e in ev):
            batch += ev
            if len(batch) >= 12:
                add(batch)
                batch = []
        else:
            add(ev)
    if batch:
        add(batch)
    return plan, total, calls


def model_checking(w, start):
    out = []
    plan = []
    states = trans = 0
    for m in MODELS.get(w.prop, []):
        if m.get('tier', 'quick') == 'thorough' and TIER != 'thorough':
            continue
        cfg = m['cfg'] if TIER == 'quick' else m.get('thorough_cfg', m['cfg'])
        t = time.time()
        cases = w.path('cases')
        if os.path.exists(cases):
            os.remove(cases)
        rc, o, (gen, dist) = w.tlc(m['spec'], cfg, extra=m.get('extra', ()), heap='8g' if TIER == 'quick' else '14g', cases=cases, limit=m.get('cases', (20000, 200000))[TIER == 'thorough'])
        if 'No error has been found' not in o:
            raise Broken('the specification does not have its own property: %s %s\n%s' % (m['spec'], cfg, tail(o)))
        if dist < m.get('min', 1):
            raise Broken('model %s explored only %d states' % (cfg, dist))
        note('model %s (%s): %d states, %d transitions, %.0f s' % (m['spec'], cfg, dist, gen, time.time() - t))
        p, total, calls = enumerated(cases, m['spec'], start + len(plan), MODE.get(w.prop, ''))
        plan += p
        out.append({'model': m['spec'], 'config': cfg, 'what': m['what'], 'states': dist, 'transitions': gen, 'wall_s': round(time.time() - t, 1),
                    'cases_enumerated': total, 'calls_replayed_on_the_code': calls})
        states += dist
        trans += gen
    return out, states, trans, plan


def confirm(w, plan_cases, lines, rej, races):
    """a rejected event must be there again when its case is run again"""
    i, k, x = rej
    c = json.loads(lines[i])
    ev = c['ev'][k]
    if ev['op'] == 'race' or c.get('mode') == 'conc':
        return True
    pc = [l for l in plan_cases if json.loads(l)['case'] == c['case']]
    if not pc:
        return True
    p = w.path('confirm.plan')
    open(p, 'w').write(pc[0])
    hang = ev['r'].get('k') == 'hang'
    try:
        ls, _ = w.execute(p, limit=60 if hang else 10)
    except Broken as e:
        note('confirming:', e)
        return not hang
    r2, _, _ = w.validate(ls)
    if r2:
        return True
    if hang:
        return False
    # does it need what the cases before it left behind?
    return 'history'


def samples(lines, n=3):
    s = []
    step = max(1, len(lines) // n)
    for l in lines[::step][:n]:
        t = l if len(l) <= 3000 else l[:3000] + '...'
        s.append(t)
    return s


def main(prop):
    w = Work(prop)
    try:
        w.build()
        note('driver built from /repo')
        plan = w.plan()
        plan_cases = open(plan).read().splitlines(True)
        models, ms, mt, more = model_checking(w, 1 + max(json.loads(c)['case'] for c in plan_cases))
        with open(plan, 'a') as f:
            f.writelines(more)
        plan_cases += more
        lines, races = w.execute(plan)
        extra = []
        for r in races:
            if in_library(r):
                extra.append(json.dumps({'case': len(lines) + len(extra) + 1, 'mode': '', 'ev': [
                    {'op': 'race', 'a': {'report': r[:6000].encode().hex()}, 'r': {'k': 'ok'}, 'ch': []}]}))
            else:
                raise Broken('race in the driver\n' + r)
        lines = lines + extra[:20]
        note('executed %d cases' % len(lines))
        n = sum(1 for l in lines if '"cut":"' in l)
        if n:
            note('%d cases stopped early: an object they use was not made' % n)
        rejects, ts, tt = w.validate(lines)
        note('TLC validated %d states; %d rejected' % (ts, len(rejects)))
        kn = known(prop)
        hit, bad, unconfirmed = {}, None, 0
        for rej in rejects:
            ev = json.loads(lines[rej[0]])['ev'][rej[1]]
            if key_of(ev) in kn:
                hit[key_of(ev)] = True
                continue
            if bad is None:
                ok = confirm(w, plan_cases, lines, rej, races)
                if ok == 'history':
                    l2, _ = w.execute(plan)
                    r2, _, _ = w.validate(l2)
                    ok = bool(r2)
                    if not ok:
                        note('not there again in a second run of the plan; the recorded execution stands')
                        ok = True
                if ok:
                    bad = rej
                else:
                    unconfirmed += 1
                    if unconfirmed >= 3:
                        break
        if bad is None and unconfirmed:
            raise Broken('a call that took very long once and not again')
        kinds = {}
        for l in lines:
            for e in json.loads(l)['ev']:
                kinds[e['op'] + '/' + e['r'].get('k', '?')] = kinds.get(e['op'] + '/' + e['r'].get('k', '?'), 0) + 1
        ev = {
            'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
            'coverage': {
                'states': ms + ts, 'transitions': mt + tt,
                'traces_validated_against_impl': len(lines),
                'recorded_calls': sum(kinds.values()), 'calls_by_result': kinds,
                'model_states': ms, 'trace_states': ts, 'models': models,
                'cases_cut': sum(1 for l in lines if '"cut":"' in l),
                'races_reported': len(races),
                'samples': samples(lines),
            },
            'assumptions': [
                'TLC 1.8 evaluates the specification; SHA-256, HMAC-SHA-512 and secp256k1 are evaluated by spec/java (JDK and BigInteger), and checked against definitions written in TLA+ by MC_Hash and MC_Curve',
                'the driver records calls, results and object contents faithfully (it converts values to hex and nothing else)',
                'the cases explored are a sample of an unbounded space; the model runs are exhaustive within the stated constants',
            ],
            'violations': 1 if bad else 0,
            'wall_s': round(time.time() - T0, 1),
        }
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        with open(ROOT + '/evidence/%s.json' % prop, 'w') as f:
            json.dump(ev, f, indent=1)
        for k, d in kn.items():
            if k in hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, d), flush=True)
        if bad:
            i, k, x = bad
            c = json.loads(lines[i])
            os.makedirs(ROOT + '/replays', exist_ok=True)
            path = ROOT + '/replays/%s-%d-%s.json' % (prop, SEED, TIER)
            pc = [json.loads(l) for l in plan_cases if json.loads(l)['case'] == c['case']] if c['ev'][k]['op'] != 'race' else []
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': SEED, 'tier': TIER, 'plan': pc, 'recorded': c, 'event': k, 'explanation': x,
                           'rejected_cases': len(rejects), 'run': 'python3 check.py --replay ' + path}, f, indent=1)
            print('rejected call %d of case %d: %s' % (k, c['case'], json.dumps(c['ev'][k])[:1500]))
            print('specification: ' + x[:1500])
            if c['ev'][k]['op'] == 'race':
                print(bytes.fromhex(c['ev'][k]['a']['report']).decode('utf-8', 'replace')[:3000])
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            return 1
        note('ok: %s held (%d model states, %d recorded cases, %d calls)' % (prop, ms, len(lines), sum(kinds.values())))
        return 0
    finally:
        w.close()


def replay(path):
    r = json.load(open(path))
    w = Work(r['property'])
    try:
        w.build()
        if not r['plan']:
            print(json.dumps(r['recorded'], indent=1))
            return 1
        p = w.path('plan')
        with open(p, 'w') as f:
            for c in r['plan']:
                f.write(json.dumps(c) + '\n')
        lines, _ = w.execute(p)
        rej, _, _ = w.validate(lines)
        for i, k, x in rej:
            print(json.dumps(json.loads(lines[i])['ev'][k]))
            print('specification:', x)
        print('VIOLATION property=%s replay=%s' % (r['property'], path) if rej else 'not reproduced')
        return 1 if rej else 0
    finally:
        w.close()


if __name__ == '__main__':
    try:
        if len(sys.argv) == 3 and sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        if len(sys.argv) != 2 or not re.match(r'C\d\d$', sys.argv[1]):
            print(__doc__)
            sys.exit(2)
        sys.exit(main(sys.argv[1]))
    except Broken as e:
        print('CHECK-ERROR: %s' % e, flush=True)
        sys.exit(2)
