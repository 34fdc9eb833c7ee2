"""Build the harness binaries and their LLVM IR from /repo's current source."""
import fcntl
import glob
import os
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, 'harness')
BUILD = os.path.join(HERE, '.build')
TARGET = os.path.join(BUILD, 'target')
REL = os.path.join(TARGET, 'release')
BINS = tuple(sorted(f[:-3] for f in os.listdir(os.path.join(HARNESS, 'src', 'bin'))))


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=TARGET,
             RUSTFLAGS='--cfg cyphus_verif', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    for k in ('RUSTC_WRAPPER', 'RUSTDOCFLAGS'):
        e.pop(k, None)
    return e


def sh(cmd, timeout=900):
    return subprocess.run(cmd, cwd=HARNESS, env=env(), capture_output=True, text=True, timeout=timeout)


def compile_bin(name, shim):
    for f in glob.glob(os.path.join(REL, 'deps', name + '-*')):
        os.unlink(f)
    p = sh(['cargo', 'rustc', '--release', '--bin', name, '--', '--emit=llvm-ir,link',
            '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'link-arg=' + shim])
    lls = glob.glob(os.path.join(REL, 'deps', name + '-*.ll'))
    if p.returncode != 0 or len(lls) != 1:
        return None, p.stderr[-3000:]
    return (lls[0], os.path.join(REL, name)), None


def build(names):
    """{bin: (ir file, executable)}, always recompiled from the current source."""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shim = os.path.join(BUILD, 'shim.o')
        p = subprocess.run(['gcc', '-O1', '-c', os.path.join(HARNESS, 'shim.c'), '-o', shim],
                           capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError(p.stderr)
        out = {}
        # mtimes in a copied tree cannot be trusted: always recompile both crates
        sh(['cargo', 'clean', '--release', '-p', 'cyphus-diffeq', '-p', 'vharness'])
        for n in names:
            r, err = compile_bin(n, shim)
            if r is None:
                # once more from scratch, in case the build directory was damaged
                shutil.rmtree(TARGET, ignore_errors=True)
                out = {}
                for m in names[:names.index(n) + 1]:
                    r, err = compile_bin(m, shim)
                    if r is None:
                        raise BuildError('%s does not build:\n%s' % (m, err))
                    out[m] = r
            out[n] = r
    return out, time.time() - t0
