"""Running harnesses natively on concrete inputs."""
import os
import struct
import subprocess
import tempfile


def f2hex(x):
    return '%x' % struct.unpack('<Q', struct.pack('<d', x))[0]


def values_text(vals):
    """vals: {(kind, tag): [values]}"""
    out = []
    for (k, tag), vs in sorted(vals.items()):
        for v in vs:
            out.append('%s %d %s' % (k, tag, f2hex(v) if k == 'f' else '%x' % v))
    return '\n'.join(out) + '\n'


class Run:
    def __init__(self, status, tag, obs, reached, out, err):
        self.status = status        # done, fail, assume, stop, abort, hang, other
        self.tag = tag
        self.obs = obs
        self.reached = reached
        self.out = out
        self.err = err


def run(binary, harness, vals, timeout=20, tags=None):
    fd, path = tempfile.mkstemp(prefix='vvals-')
    try:
        os.write(fd, values_text(vals).encode())
        os.close(fd)
        env = dict(os.environ, V_VALUES=path)
        if tags is not None:
            env['V_TAGS'] = ',' + ','.join(map(str, sorted(tags))) + ','
        try:
            p = subprocess.run([binary, harness], capture_output=True, text=True, timeout=timeout, env=env)
        except subprocess.TimeoutExpired as e:
            return Run('hang', None, [], set(), '', '')
    finally:
        os.unlink(path)
    obs = []
    reached = set()
    tag = None
    for ln in p.stdout.split('\n'):
        w = ln.split()
        if not w:
            continue
        if w[0] == 'O':
            obs.append((int(w[1]), w[2], int(w[3], 16)))
        elif w[0] == 'R':
            reached.add(int(w[1]))
        elif w[0] == 'FAIL':
            tag = int(w[1])
    rc = p.returncode
    st = {0: 'done', 42: 'fail', 43: 'assume', 44: 'stop'}.get(rc)
    if st is None:
        st = 'abort' if rc < 0 or rc == 134 else 'other'
    return Run(st, tag, obs, reached, p.stdout[-2000:], p.stderr[-2000:])
