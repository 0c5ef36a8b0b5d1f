"""Shrinks a program in the text form of harness/ir.h. A candidate is accepted only when the replay reports the same
kind of failure (mismatch, crash or hang); an invalid candidate (exit 3) is refused by the harness itself."""
import os, subprocess, tempfile, time


def outcome(rc):
    if rc == 10:
        return 'mismatch'
    if rc == 12:
        return 'hang'
    if rc == 0:
        return 'ok'
    if rc == 3:
        return 'invalid'
    if rc in (99, 124, -9, 137):
        return 'infra'
    return 'crash'


def run_replay(cmd, path, timeout=60, env=None):
    try:
        r = subprocess.run(cmd + ['replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return outcome(r.returncode), r.stdout.decode('latin1')[-2000:]
    except subprocess.TimeoutExpired:
        return 'infra', 'timeout'


def shrink(cmd, text, budget=60.0, workdir=None, env=None):
    """cmd: list that runs the harness; returns the smallest failing text found within the budget."""
    end = time.time() + budget
    fd, path = tempfile.mkstemp(suffix='.prog', dir=workdir)
    os.close(fd)

    def fails(lines):
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        o, msg = run_replay(cmd, path, 60, env)
        return o in ('mismatch', 'crash', 'hang'), o, msg

    lines = [l for l in text.split('\n') if l and l[0] != '#']
    def klass(m):
        return [w for w in ('emission', 'generation', 'Assertion', 'leak') if w in m][:1]

    ok, kind, msg = fails(lines)
    if not ok:
        os.unlink(path)
        return text, kind, msg
    best_msg = msg0 = msg

    def still(c):
        nonlocal best_msg
        ok, o, m = fails(c)
        if ok and o == kind and klass(m) == klass(msg0):
            best_msg = m
            return True
        return False

    # 1. drop instructions
    def is_i(l):
        return l.startswith('i ')
    n = 0
    while time.time() < end:
        idx = [k for k, l in enumerate(lines) if is_i(l)]
        chunk = max(1, len(idx) // 2)
        changed = False
        while chunk >= 1 and time.time() < end:
            pos = len(idx) - chunk if len(idx) >= chunk else 0
            while pos >= 0 and time.time() < end:
                drop = set(idx[pos:pos + chunk])
                if drop:
                    c = [l for k, l in enumerate(lines) if k not in drop]
                    if still(c):
                        lines = c
                        idx = [k for k, l in enumerate(lines) if is_i(l)]
                        changed = True
                pos -= chunk
            chunk //= 2
        n += 1
        if not changed or n > 6:
            break
    # 2. simplify initial values
    for k in range(len(lines)):
        if time.time() > end:
            break
        if lines[k].startswith(('reg ', 'freg ')):
            p = lines[k].split()
            if p[3] != '0':
                c = list(lines)
                c[k] = ' '.join(p[:3] + ['0'])
                if still(c):
                    lines = c
    # 3. smaller context
    for k in range(len(lines)):
        if lines[k].startswith('ctx '):
            p = lines[k].split()
            for pos in (6, 5, 4, 3, 2, 1):
                if time.time() > end:
                    break
                for v in ('0', '1', '2', '4'):
                    if p[pos].startswith('-') or int(p[pos]) <= int(v):
                        break
                    c = list(lines)
                    q = list(p)
                    q[pos] = v
                    c[k] = ' '.join(q)
                    if still(c):
                        lines = c
                        p = q
                        break
    os.unlink(path)
    return '\n'.join(lines) + '\n', kind, best_msg
