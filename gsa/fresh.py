"""Rebuild the typed syntax tree of /repo's current sources with the compiler driver."""
import fcntl
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('GSA_REPO', '/repo')
CRATE = 'groth_sahai'


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET',
              'RUSTUP_TOOLCHAIN', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_PROFILE_DEV_DEBUG'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TERM_COLOR'] = 'never'
    e.setdefault('HOME', '/root')
    if '/root/.cargo/bin' not in e.get('PATH', ''):
        e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def driver():
    e = env()
    rc, out = run(['cargo', '+nightly', 'build', '--offline', '--release', '--manifest-path', os.path.join(VERIF, 'driver/Cargo.toml'),
                   '--target-dir', os.path.join(BUILD, 'driver')], env=e)
    exe = os.path.join(BUILD, 'driver/release/gsa-driver')
    if rc or not os.path.exists(exe):
        raise BuildError('the compiler driver does not build:\n' + out[-3000:])
    return exe


def lib_path():
    rc, out = run(['rustc', '+nightly', '--print', 'sysroot'], env=env())
    if rc:
        raise BuildError('no nightly toolchain: ' + out)
    return out.strip() + '/lib'


def forget(t):
    """drop cargo's memory of the crate itself, in both layouts, so that it is compiled again"""
    for d in ('debug/build', 'debug/.fingerprint', 'debug/deps', 'debug/incremental'):
        p = os.path.join(t, d)
        if not os.path.isdir(p):
            continue
        for x in os.listdir(p):
            if x.startswith(('groth-sahai', 'groth_sahai', 'libgroth_sahai')):
                y = os.path.join(p, x)
                shutil.rmtree(y, ignore_errors=True) if os.path.isdir(y) else os.remove(y)


def two_faced(repo=None):
    """do the sources ask whether debug assertions are compiled in"""
    for d, _, fs in os.walk(os.path.join(repo or REPO, 'src')):
        for x in fs:
            if x.endswith('.rs') and 'debug_assert' in open(os.path.join(d, x), errors='replace').read():
                return True
    return False


def dump(repo=None, out=None, flags=''):
    """path of a fresh dump of the sources"""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    t = os.path.join(BUILD, 't')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        out = os.path.abspath(out) if out else os.path.join(BUILD, 'dump-%d%s.json' % (os.getpid(), '-o' if flags else ''))
        e = env()
        e.update(GSA_CRATE=CRATE, GSA_OUT=out, GSA_FLAGS=flags, RUSTC_WORKSPACE_WRAPPER=exe,
                 LD_LIBRARY_PATH=lib_path() + ':' + e.get('LD_LIBRARY_PATH', ''))
        for att in range(2):
            if os.path.exists(out):
                os.remove(out)
            if att == 0:
                forget(t)
            else:
                shutil.rmtree(t, ignore_errors=True)
            lock = os.path.join(repo, 'Cargo.lock')
            had = os.path.exists(lock)
            rc, log = run(['cargo', '+nightly', 'check', '--lib', '--offline', '--manifest-path', os.path.join(repo, 'Cargo.toml'),
                           '--target-dir', t], env=e, cwd=repo)
            if not had and os.path.exists(lock):
                os.remove(lock)
            if os.path.exists(out) and os.path.getsize(out) > 1000 and rc == 0:
                return out
        raise BuildError('the crate does not compile under the analysis driver:\n' + log[-4000:])


if __name__ == '__main__':
    print(dump(*(sys.argv[1:])))
