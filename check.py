#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

  check.py --prop C01 [--tier quick|thorough] [--seed N]
  check.py --prop C01 --replay FILE      replays a recorded violation

Exit 0: the property held on every simulated run.  Exit 1 with a line
'VIOLATION property=<id> replay=<path>': it does not hold.  Any other exit is
an error of the machinery, never a verdict.
"""
import argparse, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
OUT = os.path.join(HERE, 'out')
EVID = os.path.join(HERE, 'evidence')
BUILD = os.path.join(HERE, 'build')
KNOWN = os.path.join(HERE, 'known_findings.txt')
NCPU = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from plan import PROPS, ENGINES  # noqa: E402


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), SIM):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            if os.path.basename(d) == 'cfg':
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()


def build(prop, workdir):
    eng = ENGINES[PROPS[prop]['engine']]
    extra = PROPS[prop].get('defines', [])
    base = tree_hash()
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    jobs = []
    for tu in eng['runtime']:
        jobs.append((os.path.join(SIM, tu), eng['flags'] + eng.get('runtime_flags', [])))
    for c in PROPS[prop]['cfgs']:
        src = os.path.join(SIM, 'cfg', c + '.cpp')
        first = open(src).readline()
        fl = first[len('// FLAGS:'):].split() if first.startswith('// FLAGS:') else []
        jobs.append((src, eng['flags'] + eng['cfg_flags'] + fl + ['-I' + os.path.join(REPO, 'include')]))

    def one(job):
        src, flags = job
        text = open(src).read()
        for inc in re.findall(r'^#include "(\w+\.cpp)"', text, re.M):
            text += open(os.path.join(os.path.dirname(src), inc)).read()
        key = hashlib.sha256((base + src + text + ' '.join(flags + extra)).encode()).hexdigest()[:24]
        obj = os.path.join(BUILD, 'obj', key + '.o')
        if os.path.exists(obj):
            return obj
        tmp = obj + '.%d.tmp' % os.getpid()
        r = subprocess.run([eng['cxx']] + flags + extra + ['-c', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken('cannot build %s:\n%s' % (src, r.stderr[-3000:]))
        os.replace(tmp, obj)
        return obj
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(one, jobs))
    exe = os.path.join(workdir, 'runner')
    r = subprocess.run([eng['cxx']] + eng['flags'] + objs + eng['link'] + ['-o', exe], capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('cannot link:\n' + r.stderr[-3000:])
    trim_cache()
    return exe


def trim_cache():
    d = os.path.join(BUILD, 'obj')
    fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
    for _, f in fs[:-400]:
        try:
            os.remove(os.path.join(d, f))
        except OSError:
            pass


# ------------------------------------------------------------------ running
RC_NAMES = {77: None, 98: 'ubsan', 99: 'asan'}


def classify(rc, out):
    """(class, message, hash) of a finished runner process; None if it ended normally."""
    if rc == 0:
        return None
    m = re.search(r'VIOL class=(\S+) tags=(\S+) step=(\S+) hash=(\S+)\nMSG (.*)', out)
    if m:
        cls = m.group(1)
        if cls == 'crash:abort':
            a = re.search(r"Assertion [`'](.*?)' failed", out)
            if a:
                return ('crash:assert', 'assertion failed: ' + a.group(1)[:200], m.group(4))
            a = re.search(r"terminate called.*", out)
            if a:
                return ('crash:terminate', a.group(0)[:200], m.group(4))
        return (cls, m.group(5), m.group(4))
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', out)
    if m:
        f = re.search(r'#\d+ \S+ in (.*?)\(?/repo\S*/(\S+?):(\d+)', out)
        return ('asan:' + m.group(1), 'AddressSanitizer: %s%s' % (m.group(1), ' in ' + f.group(2) if f else ''), '-')
    if 'runtime error:' in out:
        m = re.search(r'runtime error: (.*)', out)
        return ('ubsan', m.group(1)[:200], '-')
    if rc in (3, 4):
        raise Broken('runner failed:\n' + out[-2000:])
    if rc < 0:
        return ('signal:%d' % -rc, 'killed by signal %d' % -rc, '-')
    raise Broken('runner ended with %d:\n%s' % (rc, out[-2000:]))


def run_plan(exe, prop, path, timeout=120, sched=None):
    try:
        r = subprocess.run([exe, 'run', path, '--prop', prop], capture_output=True, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return ('hang', 'no result within %d s of real time' % timeout, '-')
    if sched is not None:
        m = re.search(r'^SCHED(.*)$', r.stdout, re.M)
        if m:
            sched.extend(x.split(':') for x in m.group(1).split())
    return classify(r.returncode, r.stdout + r.stderr)


def explicit_schedule(exe, prop, path, text, first):
    """The same run with every context switch written out instead of drawn from
    the plan's schedule seed; None if that does not reproduce the violation."""
    sw = []
    run_plan(exe, prop, path, sched=sw)
    pf = PlanFile(text)
    if not any(l.startswith('param tail ') for l in pf.head) or len(sw) > 20000:
        return None
    head = [re.sub(r'^param tail .*', 'param tail 0', l) for l in pf.head]
    t = pf.text([l for l in pf.steps if not l.startswith('s sw ')] + ['s sw %s 0 %s 0 0' % (to, after) for after, to in sw], head)
    p = path + '.explicit'
    with open(p, 'w') as f:
        f.write(t)
    r = run_plan(exe, prop, p)
    os.remove(p)
    return t if r is not None and r[0] == first[0] else None


def run_batch_args(exe, prop, seed, frm, stride, count, size, timeout=600):
    try:
        r = subprocess.run([exe, 'batch', '--prop', prop, '--seed', str(seed), '--from', str(frm), '--stride', str(stride), '--count', str(count), '--size', str(size)],
                           capture_output=True, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return ('hang', 'no result within %d s of real time' % timeout, '-')
    return classify(r.returncode, r.stdout + r.stderr)


class Worker(threading.Thread):
    def __init__(self, exe, prop, seed, w, nw, count, size, tmax, workdir, log_hashes=False):
        super().__init__()
        self.status = os.path.join(workdir, 'st.%d' % w)
        with open(self.status, 'wb') as f:
            f.write(b'\0' * 4096)
        self.states = os.path.join(workdir, 'states.%d' % w)
        self.w = w
        cmd = [exe, 'batch', '--prop', prop, '--seed', str(seed), '--from', str(w), '--stride', str(nw), '--count', str(count),
               '--size', str(size), '--status', self.status, '--tmax', str(tmax), '--states-out', self.states]
        if log_hashes:
            cmd += ['--log', '1']
        pin = None
        if ENGINES[PROPS[prop]['engine']].get('pin'):  # one simulated thread runs at a time: keep them on one core
            cpus = sorted(os.sched_getaffinity(0))
            pin = lambda: os.sched_setaffinity(0, {cpus[w % len(cpus)]})  # noqa: E731
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=pin)
        self.out = ''
        self.res = None
        self.err = None

    def run(self):
        try:
            self.out = self.p.communicate()[0]
            self.res = classify(self.p.returncode, self.out)
        except Exception as e:  # noqa: BLE001
            self.err = e

    def stop_at(self, idx):
        with open(self.status, 'r+b') as f:
            f.seek(5 * 8)
            cur = struct.unpack('<Q', f.read(8))[0]
            if cur == 0 or cur > idx:
                f.seek(5 * 8)
                f.write(struct.pack('<Q', idx))

    def index(self):
        return struct.unpack('<Q', open(self.status, 'rb').read()[8:16])[0]

    def summary(self):
        m = re.search(r'^BATCH (\{.*\})$', self.out, re.M)
        return json.loads(m.group(1)) if m else None


def batch(exe, prop, seed, count, size, tmax, workdir, nw=NCPU, log_hashes=False):
    ws = [Worker(exe, prop, seed, w, nw, count, size, tmax, workdir, log_hashes) for w in range(nw)]
    for w in ws:
        w.start()
    seen = set()
    while any(w.is_alive() for w in ws):
        for w in ws:
            w.join(0.05)
            if not w.is_alive() and w.w not in seen:
                seen.add(w.w)
                if w.res:
                    for o in ws:
                        if o is not w:
                            o.stop_at(w.index() + 1)  # only lower indexes still matter
    for w in ws:
        if w.err:
            raise Broken(str(w.err))
    fails = sorted((w.index(), w.w, w.res) for w in ws if w.res)
    return ws, fails


# ------------------------------------------------------------------ minimising
class PlanFile:
    def __init__(self, text):
        self.head = [l for l in text.splitlines() if l and not l.startswith('s ') and not l.startswith('#')]
        self.steps = [l for l in text.splitlines() if l.startswith('s ')]

    def text(self, steps=None, head=None):
        return '\n'.join((head if head is not None else self.head) + (steps if steps is not None else self.steps)) + '\n'


def minimise(exe, prop, text, cls, workdir, budget):
    t0 = time.time()
    n = [0]
    lock = threading.Lock()

    def fails(t):
        with lock:
            n[0] += 1
            i = n[0]
        p = os.path.join(workdir, 'min.%d' % i)
        with open(p, 'w') as f:
            f.write(t)
        try:
            r = run_plan(exe, prop, p, 60)
        except Broken:
            r = None
        os.remove(p)
        return r is not None and r[0] == cls

    pf = PlanFile(text)
    steps = pf.steps
    with ThreadPoolExecutor(NCPU) as ex:
        # the tail after the failing step is irrelevant: cut by bisection-like chunks (ddmin)
        k = 2
        while len(steps) >= 2 and time.time() - t0 < budget:
            size = max(1, len(steps) // k)
            cands = []
            for i in range(0, len(steps), size):
                c = steps[:i] + steps[i + size:]
                if c:
                    cands.append(c)
            done = False
            for j in range(0, len(cands), NCPU):
                if time.time() - t0 > budget:
                    break
                grp = cands[j:j + NCPU]
                rs = list(ex.map(lambda c: fails(pf.text(c)), grp))
                for c, r in zip(grp, rs):
                    if r:
                        steps = c
                        done = True
                        break
                if done:
                    break
            if done:
                k = max(2, k - 1)
            elif size == 1:
                break
            else:
                k = min(len(steps), k * 2)
        # simpler steps: no fault, smaller numbers
        changed = True
        rounds = 0
        while changed and rounds < 4 and time.time() - t0 < budget:
            changed = False
            rounds += 1
            i = 0
            while i < len(steps) and time.time() - t0 < budget:
                toks = steps[i].split()
                cands = []
                if len(toks) > 7:
                    cands.append(toks[:7])
                    m = re.match(r'(!\w+@)(\d+)(\+?)$', toks[7])
                    if m and m.group(3):
                        cands.append(toks[:7] + [m.group(1) + m.group(2)])
                    if m and int(m.group(2)) > 1:
                        for v in (1, int(m.group(2)) // 2, int(m.group(2)) - 1):
                            cands.append(toks[:7] + [m.group(1) + str(v) + m.group(3)])
                for f in (2, 3, 4, 5, 6):
                    v = int(toks[f])
                    for nv in ([0, v // 2, v - 1] if v > 0 else [0, -1] if v < -1 else []):
                        if nv != v:
                            t = list(toks)
                            t[f] = str(nv)
                            cands.append(t)
                seen = []
                cands = [c for c in cands if not (c in seen or seen.append(c))]
                rs = list(ex.map(lambda c: fails(pf.text(steps[:i] + [' '.join(c)] + steps[i + 1:])), cands))
                hit = next((c for c, r in zip(cands, rs) if r), None)
                if hit:
                    steps = steps[:i] + [' '.join(hit)] + steps[i + 1:]
                    changed = True
                else:
                    i += 1
        # simpler parameters
        head = pf.head
        for i, l in enumerate(pf.head):
            m = re.match(r'param (placement|advfail|huge|order|keymode|lookup|tail) (-?\d+)$', l)
            if m and m.group(2) != '0' and time.time() - t0 < budget:
                h2 = head[:i] + ['param %s 0' % m.group(1)] + head[i + 1:]
                if fails(pf.text(steps, h2)):
                    head = h2
    return pf.text(steps, head), n[0]


# ------------------------------------------------------------------ reporting
def known_findings(prop):
    fnd = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) replay=(\S+) class=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                fnd.append({'replay': os.path.join(HERE, m.group(2)), 'class': m.group(3), 'what': m.group(4)})
    return fnd


def where(exe, msg):
    """Source lines of the code addresses in a message."""
    out = []
    for a in dict.fromkeys(re.findall(r'0x5555\w+', msg)):
        r = subprocess.run(['addr2line', '-Cfpe', exe, hex(int(a, 16) - 0x555555554000 - 1)], capture_output=True, text=True)
        if r.returncode == 0 and '??' not in r.stdout:
            out.append('  %s is %s' % (a, r.stdout.strip()))
    return out


def report(prop, kind, body, cls, msg, h, seed, index):
    os.makedirs(OUT, exist_ok=True)
    name = '%s-%s.%s' % (prop, hashlib.sha256((body + cls).encode()).hexdigest()[:10], kind)
    path = os.path.join(OUT, name)
    with open(path, 'w') as f:
        f.write('# property %s\n# seed %d\n# index %s\n# class %s\n# hash %s\n# message %s\n# replay with: python3 check.py --prop %s --replay %s\n' % (prop, seed, index, cls, h, msg, prop, os.path.relpath(path, HERE)))
        f.write(body)
    return path


def same(a, b):
    return a is not None and b is not None and a[0] == b[0] and (a[2] == b[2] or a[0] in ('no-progress', 'hang'))


def settle(exe, prop, seed, size, nw, index, res, workdir, tier):
    """Turn a failing run into a minimised replay file that reproduces exactly."""
    r = subprocess.run([exe, 'gen', '--prop', prop, '--seed', str(seed), '--index', str(index), '--size', str(size)], capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot regenerate run %d' % index)
    text = r.stdout
    p = os.path.join(workdir, 'fail.plan')
    open(p, 'w').write(text)
    first = run_plan(exe, prop, p)
    if first is None or not same(first, run_plan(exe, prop, p)):
        # depends on what the same process simulated before: replay that too
        for back in (1, 2, 4, 8, 32, 128, 1024, 1 << 40):
            frm = max(index % nw, index - back * nw)
            a = run_batch_args(exe, prop, seed, frm, nw, index + 1, size)
            if a is not None and same(a, run_batch_args(exe, prop, seed, frm, nw, index + 1, size)):
                path = report(prop, 'batch', 'batch seed=%d from=%d stride=%d count=%d size=%d\n' % (seed, frm, nw, index + 1, size), a[0], a[1], a[2], seed, index)
                return path, a, 0, None
            if frm == index % nw:
                break
        raise Broken('run %d failed (%s: %s) but does not replay' % (index, res[0], res[1]))
    start = explicit_schedule(exe, prop, p, text, first) or text
    mini, tries = minimise(exe, prop, start, first[0], workdir, 45 if tier == 'quick' else 180)
    open(p, 'w').write(mini)
    a, b = run_plan(exe, prop, p), run_plan(exe, prop, p)
    if not same(a, b):
        open(p, 'w').write(text)
        mini = text
        a, b = run_plan(exe, prop, p), run_plan(exe, prop, p)
        if not same(a, b):
            raise Broken('minimised run does not replay')
    path = report(prop, 'plan', mini, a[0], a[1], a[2], seed, index)
    return path, a, tries, (len(PlanFile(start).steps), len(PlanFile(mini).steps))


def replay(exe, prop, path):
    body = ''.join(l for l in open(path) if not l.startswith('#'))
    m = re.match(r'batch seed=(\d+) from=(\d+) stride=(\d+) count=(\d+) size=(\d+)', body)
    if m:
        v = [int(x) for x in m.groups()]
        return run_batch_args(exe, prop, v[0], v[1], v[2], v[3], v[4])
    return run_plan(exe, prop, path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=NCPU)
    ap.add_argument('--hashes')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    prop, t0 = a.prop, time.time()
    cfg = PROPS[prop]
    workdir = tempfile.mkdtemp(prefix='sim-%s-' % prop)
    try:
        log('check %s tier=%s seed=%d' % (prop, a.tier, a.seed))
        exe = build(prop, workdir)
        t1 = time.time()
        log('built in %.1f s' % (t1 - t0))
        if a.replay:
            r = replay(exe, prop, a.replay)
            if r is None:
                log('replay: no violation')
                return 0
            log('class %s\nhash %s\n%s' % (r[0], r[2], r[1]))
            log('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        kf = known_findings(prop)
        for f in kf:
            r = replay(exe, prop, f['replay'])
            if r is not None and r[0] == f['class']:
                log('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        tier = cfg[a.tier]
        count, size = a.runs or tier['runs'], tier.get('size', 1)
        tmax = tier['tmax']
        ws, fails = batch(exe, prop, a.seed, count, size, tmax, workdir, a.workers, bool(a.hashes))
        t2 = time.time()
        if a.hashes:
            hs = sorted((int(m.group(1)), m.group(2)) for w in ws for m in re.finditer(r'^H (\d+) (\S+)$', w.out, re.M))
            open(a.hashes, 'w').write(''.join('%d %s\n' % x for x in hs))
        tot = {'runs': 0, 'fault_runs': 0, 'ops': 0, 'sim_steps': 0, 'distinct': 0}
        armed, fired, probes, configs, samples, more = {}, {}, {}, {}, [], {}
        states = set()
        for w in ws:
            s = w.summary()
            if not s:
                continue
            for k in tot:
                tot[k] += s.get(k, 0)
            for d, k in ((armed, 'armed'), (fired, 'fired'), (probes, 'probes'), (configs, 'configs'), (more, 'more')):
                for x, v in s.get(k, {}).items():
                    d[x] = d.get(x, 0) + v
            samples += s.get('samples', [])
            if os.path.exists(w.states):
                b = open(w.states, 'rb').read()
                states.update(struct.unpack('<%dQ' % (len(b) // 8), b))
        verdict = None
        if fails:
            index, w, res = fails[0]
            log('run %d: %s: %s' % (index, res[0], res[1]))
            path, r, tries, lens = settle(exe, prop, a.seed, size, a.workers, index, res, workdir, a.tier)
            if lens:
                log('minimised from %d to %d steps in %d replays' % (lens[0], lens[1], tries))
            log('class %s hash %s\n%s' % (r[0], r[2], r[1]))
            if 'code at' in r[1] and shutil.which('addr2line'):
                log('\n'.join(where(exe, r[1])))
            verdict = path
        else:
            need = cfg.get('min_runs', 200)
            if tot['runs'] < min(need, count):
                raise Broken('only %d simulated runs finished' % tot['runs'])
            for k in cfg.get('must_fire', []):
                if not (fired.get(k, 0) or probes.get(k, 0)):
                    raise Broken('workload error: %s never happened in %d runs' % (k, tot['runs']))
        wall = time.time() - t0
        sim_s = max(0.001, t2 - t1)
        ev = {
            'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': tot['runs'],
                'distinct_nontrivial': tot['distinct'],
                'rule': 'One evaluation is one simulated run: a seed-derived plan of operations, faults and environment changes executed from an empty simulated system to full teardown. Runs are distinct when their event-trace hashes differ (counted per worker) and non-trivial when they executed at least three steps.',
                'samples': samples[:3] or ['run %d failed' % fails[0][0]] if not samples else samples[:3],
                'runs_per_hour': round(tot['runs'] / sim_s * 3600),
                'simulated_steps': tot['sim_steps'],
                'simulated_time_unit': ENGINES[cfg['engine']]['time_unit'],
                'operations': tot['ops'],
                'runs_with_fired_faults': tot['fault_runs'],
                'faults_armed': {k: v for k, v in armed.items() if v},
                'faults_fired': {k: v for k, v in fired.items() if v},
                'probes': probes,
                'states': len(states),
                'state_measure': ENGINES[cfg['engine']]['state_measure'],
                'configurations': configs,
                'real_components': ENGINES[cfg['engine']]['real'],
                'stubbed_components': ENGINES[cfg['engine']]['stub'],
                **({'schedule': more} if more else {}),
            },
            'assumptions': ENGINES[cfg['engine']]['assumptions'] + cfg.get('assumptions', []),
            'wall_s': round(wall, 2), 'violations': 1 if verdict else 0,
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
        log('%d runs (%d with fired faults), %d operations, %d distinct states, %.1f s simulating, %.1f s in all' % (tot['runs'], tot['fault_runs'], tot['ops'], len(states), sim_s, wall))
        if verdict:
            log('VIOLATION property=%s replay=%s' % (prop, verdict))
            return 1
        log('OK property=%s' % prop)
        return 0
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('ERROR: %s' % e, flush=True)
        sys.exit(2)
