"""Builds what a check needs from /repo's current working tree."""
import fcntl, hashlib, os, shutil, subprocess, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(ROOT, '.work')

class BuildError(Exception): pass

def run(cmd, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    e.pop('RUSTC_WRAPPER', None)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout

def driver():
    """the MIR dumping rustc driver (depends on /verif only)"""
    os.makedirs(WORK, exist_ok=True)
    src = os.path.join(ROOT, 'driver')
    h = hashlib.sha256()
    for f in ('Cargo.toml', 'Cargo.lock', 'src/main.rs'): h.update(open(os.path.join(src, f), 'rb').read())
    h.update(subprocess.run(['rustc', '+nightly', '-vV'], stdout=subprocess.PIPE).stdout)
    out = os.path.join(WORK, 'driver-' + h.hexdigest()[:16])
    exe = os.path.join(out, 'release', 'tofas-mir')
    with open(os.path.join(WORK, 'driver.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            run(['cargo', '+nightly', 'build', '--release', '--offline', '--quiet'], env={'CARGO_TARGET_DIR': out}, cwd=src)
    return exe

def workspace(tmp):
    """copy of /repo's tracked sources without build output, so that the build never writes in /repo"""
    return REPO

def dump(tmp, examples=False):
    """MIR of the crates as JSON, from /repo's current sources"""
    exe = driver()
    d = os.path.join(tmp, 'mir'); os.makedirs(d)
    root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = {'MIRDUMP_CRATES': 'tofas,tofas_extras' + (',julian_tool,sun_angle_tool' if examples else ''), 'MIRDUMP_DIR': d, 'LD_LIBRARY_PATH': root + '/lib',
           'CARGO_TARGET_DIR': os.path.join(tmp, 'mirtarget'), 'CARGO_INCREMENTAL': '0', 'RUSTC_WORKSPACE_WRAPPER': exe,
           'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on'}
    run(['cargo', '+nightly', 'build', '--offline', '--quiet', '--manifest-path', REPO + '/Cargo.toml', '--workspace', '--lib'] + (['--examples'] if examples else []), env=env, cwd=tmp)
    return d

def replay_bin(tmp):
    """the replay program linked with the real crates"""
    src = os.path.join(tmp, 'replay-src')
    shutil.copytree(os.path.join(ROOT, 'replay'), src, ignore=shutil.ignore_patterns('target'))
    if REPO != '/repo':
        p = os.path.join(src, 'Cargo.toml'); t = open(p).read().replace('"/repo/', '"%s/' % REPO); open(p, 'w').write(t)
    out = os.path.join(tmp, 'replay')
    run(['cargo', 'build', '--offline', '--quiet'], env={'CARGO_TARGET_DIR': out}, cwd=src)
    return os.path.join(out, 'debug', 'tofas-replay')

def tools(tmp):
    """directory with the compiled command-line tools"""
    out = os.path.join(tmp, 'tools')
    run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', REPO + '/Cargo.toml', '-p', 'tofas_extras', '--examples'], env={'CARGO_TARGET_DIR': out}, cwd=tmp)
    return os.path.join(out, 'debug', 'examples')

class Workdir:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix='run-', dir=WORK)
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
