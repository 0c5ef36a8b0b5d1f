"""Common driver: builds the harnesses from the current tree of /repo, runs the generated-input search on all targets in
parallel, shrinks and re-checks a failure, writes the replay file and the evidence."""
import concurrent.futures as cf
import hashlib, json, os, shutil, struct, subprocess, sys, tempfile, threading, time

from .targets import TARGETS
from . import shrink as shr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
NPROC = os.cpu_count() or 4
BASE_FLAGS = ['-g1', '-w', '-fno-strict-aliasing', '-ffp-contract=off', '-DSLJIT_VERBOSE=0', '-DSLJIT_ARGUMENT_CHECKS=1']


class Infra(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- builds
def _tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'sljit_src'), os.path.join(REPO, 'regex_src'), HARNESS):
        for d, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.c', '.h', '.cpp')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


_tree = None
_locks = {}
_glock = threading.Lock()


def _once(key):
    with _glock:
        return _locks.setdefault(key, threading.Lock())


def _run_cc(cmd, cwd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if r.returncode != 0:
        raise Infra('build failed: %s\n%s' % (' '.join(cmd), r.stdout.decode('latin1')[-3000:]))


class Build:
    """One executable: harness source + sources of /repo, for one target."""

    def __init__(self, harness, target, flags=(), srcs=('sljit_src/sljitLir.c',), cc=None, opt='-O1', incs=(), libs=('-lm', '-lpthread'),
                 base=True, tag='', links=(), hsrcs=()):
        self.harness, self.target, self.flags, self.srcs = harness, target, list(flags), list(srcs)
        self.cc, self.opt, self.incs, self.libs, self.base, self.tag, self.links, self.hsrcs = cc, opt, list(incs), list(libs), base, tag, list(links), list(hsrcs)

    def name(self):
        return '%s@%s%s' % (self.harness, self.target, ('+' + self.tag) if self.tag else '')

    def make(self):
        t = TARGETS[self.target]
        cc = self.cc or t.cc
        cf_ = ([] if not self.base else BASE_FLAGS) + [self.opt] + t.cflags + self.flags + \
            ['-I' + os.path.join(REPO, 'sljit_src'), '-I' + os.path.join(REPO, 'regex_src'), '-I' + HARNESS] + [i.replace('@H', HARNESS).replace('@R', REPO) for i in self.incs]
        out = os.path.join(BUILD, _tree, t.name)
        os.makedirs(out, exist_ok=True)
        objs = []
        jobs = [os.path.join(REPO, s) for s in self.srcs] + [os.path.join(HARNESS, h) for h in [self.harness + '.c'] + self.hsrcs]

        def comp(src):
            k = hashlib.sha256(repr((cc, cf_, src)).encode()).hexdigest()[:16]
            o = os.path.join(out, k + '.o')
            with _once(o):
                if not os.path.exists(o):
                    tmp = o + '.%d.tmp' % os.getpid()
                    _run_cc([cc] + cf_ + ['-c', src, '-o', tmp], out)
                    os.rename(tmp, o)
            return o
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            objs = list(ex.map(comp, jobs))
        k = hashlib.sha256(repr((cc, cf_, objs, self.libs, self.links)).encode()).hexdigest()[:16]
        exe = os.path.join(out, self.harness + '.' + k)
        with _once(exe):
            if not os.path.exists(exe):
                tmp = exe + '.%d.tmp' % os.getpid()
                san = [f for f in self.flags if f.startswith('-fsanitize')]
                _run_cc([cc] + t.cflags + san + (['-static'] if t.static else []) + self.links + objs + ['-o', tmp] + self.libs, out)
                os.rename(tmp, exe)
        return t.runner + [exe]


def prepare():
    global _tree
    _tree = _tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    # other trees' builds are only a cache: keep the two latest ones
    try:
        l = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if len(d) == 20 and d != _tree)
        for _, d in l[:-2]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    except OSError:
        pass


# ---------------------------------------------------------------- jobs
class Job:
    def __init__(self, build, profile, ms, stream=0, note='', env=None, wall=None):
        self.build, self.profile, self.ms, self.stream, self.note, self.env = build, profile, int(ms), stream, note, env or {}
        self.wall = wall or (self.ms / 1000.0 * 3 + 120)
        self.result = None


PROG_FMT = '63Q'


def read_progress(path, big):
    try:
        with open(path, 'rb') as f:
            d = f.read(63 * 8)
        v = struct.unpack(('>' if big else '<') + PROG_FMT, d)
    except (OSError, struct.error):
        v = (0,) * 63
    return dict(cur=v[0], cases=v[1], nontriv=v[2], instrs=v[3], distinct=v[4], skipped=v[5], phase=v[6], extra=v[7:])


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Check:
    """One property: a list of jobs, an aggregation of what they covered."""

    def __init__(self, pid, level='exploration', rule='', extra_names=(), assumptions=(), schedule=False):
        self.pid, self.level, self.rule, self.extra_names, self.assumptions = pid, level, rule, list(extra_names), list(assumptions)
        self.jobs, self.notes, self.samples, self.violations = [], [], [], []
        self.schedule = schedule
        self.totals = dict(cases=0, nontriv=0, instrs=0, skipped=0)
        self.per = {}
        self.extra, self.extra_by, self.extra_names_by = [0] * 56, {}, {}
        self.infra = []
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vt-%s-' % pid)
        self.cov_extra = {}

    def add(self, *a, **k):
        j = Job(*a, **k)
        # x86 code needs no cache flush, so qemu does not notice when code is changed through the other mapping of the same memory
        if j.build.target.startswith('x86') and not TARGETS[j.build.target].native and any('PROT_EXECUTABLE' in f for f in j.build.flags):
            return
        self.jobs.append(j)

    # ---- one job
    def _job_seed(self, j):
        h = hashlib.sha256(('%d/%s/%s/%d' % (self.seed, j.build.name(), j.profile, j.stream)).encode()).digest()
        return int.from_bytes(h[:6], 'little')

    def _env(self, j):
        e = dict(os.environ)
        e.update(j.env)
        return e

    def _run_job(self, j):
        if self.stop.is_set():
            return
        try:
            cmd = j.build.make()
        except Infra as e:
            with self.lock:
                self.infra.append(str(e))
            self.stop.set()
            return
        t = TARGETS[j.build.target]
        seed = self._job_seed(j)
        pf = os.path.join(self.work, 'p%d' % id(j))
        start, left, end = 0, j.ms, time.time() + j.ms / 1000.0
        while left > 200 and not self.stop.is_set():
            args = cmd + ['run', j.profile, str(seed), str(start), str(int(left)), pf]
            p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self._env(j), preexec_fn=_limits, cwd=self.work)
            buf = []
            th = threading.Thread(target=lambda: buf.append(p.stdout.read()), daemon=True)
            th.start()
            t_end = time.time() + j.wall
            while p.poll() is None and time.time() < t_end and not self.stop.is_set():
                try:
                    p.wait(0.3)
                except subprocess.TimeoutExpired:
                    pass
            killed = p.poll() is None
            if killed:
                p.kill()
            p.wait()
            th.join(5)
            out = (buf[0] if buf else b'').decode('latin1')
            pr = read_progress(pf, t.big)
            with self.lock:
                for k in ('cases', 'nontriv', 'instrs', 'skipped'):
                    self.totals[k] += pr[k]
                d = self.per.setdefault(j.build.target + ('+' + j.build.tag if j.build.tag else ''), {}).setdefault(j.profile, dict(cases=0, nontrivial=0))
                d['cases'] += pr['cases']
                d['nontrivial'] += pr['nontriv']
                ex = self.extra_by.setdefault(j.build.harness, [0] * 56)
                for k in range(56):
                    self.extra[k] += pr['extra'][k]
                    ex[k] += pr['extra'][k]
            if killed:
                if not self.stop.is_set():
                    with self.lock:
                        self.notes.append('%s %s: no end within the wall clock limit, inconclusive' % (j.build.name(), j.profile))
                return
            o = shr.outcome(p.returncode)
            if o == 'ok':
                self._sample(j, cmd, seed, pr)
                return
            if o in ('infra', 'invalid'):
                with self.lock:
                    self.infra.append('%s %s seed %d case %d: rc %d %s' % (j.build.name(), j.profile, seed, pr['cur'], p.returncode, out[-500:]))
                return
            if self._failure(j, cmd, seed, pr, o, out):
                return
            start = pr['cur'] + 1  # not reproducible: logged, the search goes on behind it
            left = (end - time.time()) * 1000

    def _sample(self, j, cmd, seed, pr):
        with self.lock:
            if len(self.samples) >= 4 or any(s.get('target') == j.build.target or s.get('profile') == j.profile and len(self.samples) > 1 for s in self.samples):
                return
            self.samples.append({})
            slot = self.samples[-1]
            slot['target'] = j.build.target
        try:
            r = subprocess.run(cmd + ['dump', j.profile, str(seed), str(max(0, pr['cur'] // 2))], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30, env=self._env(j))
            txt = r.stdout.decode('latin1')
        except subprocess.TimeoutExpired:
            txt = ''
        slot.update(profile=j.profile, seed=seed, case=pr['cur'] // 2, text=txt[:1800])

    # ---- a failure was seen
    def _failure(self, j, cmd, seed, pr, kind, out):
        case = pr['cur']
        env = self._env(j)
        head = '%s %s seed %d case %d: %s %s' % (j.build.name(), j.profile, seed, case, kind, out.strip()[-300:])
        r = subprocess.run(cmd + ['dump', j.profile, str(seed), str(case)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=env)
        text = r.stdout.decode('latin1')
        fn = os.path.join(self.work, 'f%d' % id(j))
        with open(fn, 'w') as f:
            f.write(text)
        # qemu 8.2 mistranslates some unaligned 128 bit stores, depending on the instructions around them: a failure on an emulated
        # target counts only when it is also there when each instruction is translated alone
        env1 = env if TARGETS[j.build.target].native else dict(env, QEMU_ONE_INSN_PER_TB='1')
        reps = [shr.run_replay(cmd, fn, 120, e)[0] for e in (env1, env, env1)]
        bad = ('mismatch', 'crash', 'hang')
        replay_kind = 'case'
        if self.schedule and r.returncode == 0 and not all(x in bad for x in reps):
            # threads: the schedule is not under control, so a second failure of the same case is enough
            for _ in range(5):
                if any(x in bad for x in reps) or self.stop.is_set():
                    break
                reps.append(shr.run_replay(cmd, fn, 120, env1)[0])
            if any(x in bad for x in reps):
                with self.lock:
                    if self.stop.is_set():
                        return True
                    self.stop.set()
                self.report(j.build, text, out, head + ' (replays: %s)' % ','.join(reps), 'case', j.env)
                return True
        if r.returncode == 0 and all(x in bad for x in reps):
            with self.lock:
                if self.stop.is_set():
                    return True
                self.stop.set()
            budget = 40.0 if self.tier == 'quick' else 120.0
            text2, kind2, msg = shr.shrink(cmd, text, budget, self.work, env1)
            with open(fn, 'w') as f:
                f.write(text2)
            if all(shr.run_replay(cmd, fn, 120, env)[0] in bad for _ in range(2)):
                text = text2
            else:
                msg = out
        else:
            # The single case does not fail alone: replay the history from its start, it must fail again at the same case
            ok = 0
            for lo in (max(0, case - 20), max(0, case - 300), max(0, case - 2000)):
                ok = 0
                for e in (env, env1):
                    p = subprocess.run(cmd + ['run', j.profile, str(seed), str(lo), '120000', fn + '.pf'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(e, VT_STOP_AT=str(case)), preexec_fn=_limits)
                    if shr.outcome(p.returncode) in bad and read_progress(fn + '.pf', TARGETS[j.build.target].big)['cur'] == case:
                        ok += 1
                    else:
                        break
                if ok == 2:
                    break
            if ok < 2:
                with self.lock:
                    self.notes.append('not reproducible, not reported: ' + head + ' replays: ' + ','.join(reps))
                return False
            self.stop.set()
            replay_kind = 'run'
            text = 'run %s %d %d %d\n' % (j.profile, seed, lo, case)
            msg = out
        self.report(j.build, text, msg, head, replay_kind, j.env)
        return True

    def report(self, build, text, msg, head, replay_kind='case', env=None):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(text.encode()).hexdigest()[:8]
        path = os.path.join(d, '%s-%s-%s.txt' % (self.pid, build.target if build else 'host', h))
        with open(path, 'w') as f:
            f.write('# property=%s kind=%s spec=%s\n' % (self.pid, replay_kind, json.dumps(dict(
                harness=build.harness, target=build.target, flags=build.flags, srcs=build.srcs, cc=build.cc, opt=build.opt, incs=build.incs, libs=build.libs,
                base=build.base, tag=build.tag, links=build.links, hsrcs=build.hsrcs, env=env or {})) if build else '{}'))
            f.write('# replay: python3 /verif/check.py replay %s\n' % path)
            for l in (head + '\n' + (msg or '')).strip().split('\n'):
                f.write('# %s\n' % l)
            f.write(text)
        with self.lock:
            self.violations.append((path, head, (msg or '').strip()))

    # ---- all jobs
    def run(self):
        prepare()
        # build everything first, in parallel
        seen, builds = {}, []
        for j in self.jobs:
            k = (j.build.name(), tuple(j.build.flags))
            if k not in seen:
                seen[k] = set()
                builds.append(j.build)
                j.build.profiles = seen[k]
            seen[k].add(j.profile)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for f in [ex.submit(b.make) for b in builds]:
                try:
                    f.result()
                except Infra as e:
                    self.infra.append(str(e))
                    self.stop.set()
        self.t_build = time.time() - self.t0
        if not self.stop.is_set():
            self._regressions(builds)
        if not self.stop.is_set():
            with cf.ThreadPoolExecutor(NPROC) as ex:
                for f in [ex.submit(self._run_job, j) for j in self.jobs]:
                    f.result()
        return self

    # ---- saved inputs (shrunk earlier failures), replayed first
    def _regressions(self, builds):
        base = os.path.join(VERIF, 'corpus')
        todo = []
        for b in builds:
            for hn in [b.harness] + [b.harness + '.' + x for x in sorted(b.profiles)]:
                for sub in (b.target, 'any'):
                    d = os.path.join(base, hn, sub)
                    if os.path.isdir(d):
                        todo += [(b, os.path.join(d, f)) for f in sorted(os.listdir(d))]
        n = [0]

        def one(a):
            b, path = a
            if self.stop.is_set():
                return
            cmd = b.make()
            o, msg = shr.run_replay(cmd, path, 120)
            n[0] += 1
            e1 = None if TARGETS[b.target].native else dict(os.environ, QEMU_ONE_INSN_PER_TB='1')
            if o in ('mismatch', 'crash', 'hang') and all(shr.run_replay(cmd, path, 120, e)[0] in ('mismatch', 'crash', 'hang') for e in (None, e1)):
                with self.lock:
                    if self.stop.is_set():
                        return
                    self.stop.set()
                with open(path) as f:
                    txt = ''.join(l for l in f if not l.startswith('#'))
                self.report(b, txt, msg, 'saved input %s on %s: %s' % (os.path.relpath(path, VERIF), b.name(), o))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, todo))
        self.cov_extra['saved_inputs_replayed'] = n[0]

    def findings(self):
        """Known findings: lines 'finding: property=<id> replay=<file relative to /verif> <what>'."""
        p = os.path.join(VERIF, 'known_findings.txt')
        if not os.path.exists(p):
            return
        for l in open(p):
            w = l.split()
            if len(w) > 3 and w[0] == 'finding:' and w[1] == 'property=' + self.pid and w[2].startswith('replay='):
                path = os.path.join(VERIF, w[2][7:])
                try:
                    o, _ = replay_file(path, quiet=True)
                except Infra as e:
                    self.infra.append(str(e))
                    continue
                if o in ('mismatch', 'crash', 'hang'):
                    log('KNOWN-FINDING: property=%s %s' % (self.pid, ' '.join(w[3:])))
                else:
                    self.notes.append('known finding does not fail any more: ' + w[2])

    def finish(self):
        if not self.violations:
            self.findings()
        wall = time.time() - self.t0
        cov = dict(evaluations=self.totals['cases'], distinct_nontrivial=self.totals['nontriv'], rule=self.rule, samples=[s for s in self.samples if s] or ['none'],
                   instructions=self.totals['instrs'], generator_retries=self.totals['skipped'], per_target=self.per, build_s=round(getattr(self, 't_build', 0), 1))
        for k, nme in enumerate(self.extra_names):
            if nme:
                cov.setdefault('classes', {})[nme] = self.extra[k]
        for h, names in self.extra_names_by.items():
            for k, nme in enumerate(names):
                if nme:
                    cov.setdefault('classes', {})[nme] = self.extra_by.get(h, [0] * 56)[k]
        cov.update(self.cov_extra)
        if self.notes:
            cov['notes'] = self.notes[:20]
        if self.infra:
            cov['errors'] = [x[-600:] for x in self.infra[:10]]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(wall, 1), violations=len(self.violations), assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        shutil.rmtree(self.work, ignore_errors=True)
        for n in self.notes:
            log('note:', n)
        for i in self.infra:
            log('error:', i)
        for path, head, msg in self.violations:
            log(head)
            log(msg[-1500:])
            log('VIOLATION property=%s replay=%s' % (self.pid, path))
        log('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (self.pid, self.tier, self.seed, cov['evaluations'], cov['distinct_nontrivial'], wall))
        if self.violations:
            return 1
        if self.infra or (cov['evaluations'] == 0):
            return 2
        return 0


def replay_file(path, quiet=False):
    lines = open(path).read().split('\n')
    head = lines[0]
    spec = json.loads(head.split('spec=', 1)[1])
    kind = head.split('kind=')[1].split()[0]
    env = dict(os.environ, **spec.pop('env', {}))
    if _tree is None:
        prepare()
    cmd = Build(**spec).make()
    if kind == 'run':
        w = [l for l in lines if l.startswith('run ')][0].split()
        p = subprocess.run(cmd + ['run', w[1], w[2], w[3], '600000', '-'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(env, VT_STOP_AT=w[4]))
        o, msg = shr.outcome(p.returncode), p.stdout.decode('latin1')
    else:
        o, msg = shr.run_replay(cmd, path, 300, env)
    if not quiet:
        log(msg.strip())
        log('result:', o)
    return o, msg
