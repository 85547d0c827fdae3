"""Compiles the library under analysis (with the harness crate) and dumps its
resolved MIR; results are cached by the content of every input."""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')

FEATURES = {
    'std': ['--features', 'std'],
    'std-const': ['--features', 'std,const-loop'],
    'alloc': ['--no-default-features', '--features', 'alloc'],
    'alloc-const': ['--no-default-features', '--features', 'alloc,const-loop'],
}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def files(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = [x for x in ds if x not in ('target', '.git', '.build')]
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\1')
    return h.hexdigest()[:20]


def run(cmd, cwd, e, log):
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
    with open(os.path.join(BUILD, log), 'w') as f:
        f.write(r.stdout + r.stderr)
    return r


def driver():
    exe = os.path.join(BUILD, 'driver', 'release', 'hll-mirdump')
    src = files(os.path.join(VERIF, 'driver', 'src'), os.path.join(VERIF, 'driver', 'Cargo.toml'))
    stamp = os.path.join(BUILD, 'driver.stamp')
    d = digest(src)
    with lock('driver'):
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d:
            return exe
        e = env()
        e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
        r = run(['cargo', '+nightly', 'build', '--release', '--offline'], os.path.join(VERIF, 'driver'), e, 'driver.log')
        if r.returncode:
            raise BuildError('the MIR driver does not build:\n' + r.stderr[-3000:])
        with open(stamp, 'w') as f:
            f.write(d)
    return exe


def repo_digest():
    return digest(files(os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(VERIF, 'harness', 'src'),
                        os.path.join(VERIF, 'harness', 'Cargo.toml')))


def dump(feat='std'):
    """path of the MIR dump for a feature set"""
    exe = driver()
    key = digest(files(os.path.join(VERIF, 'driver', 'src'))) + '-' + repo_digest()
    out = os.path.join(BUILD, 'mir-%s-%s.json' % (feat, hashlib.sha256(key.encode()).hexdigest()[:16]))
    with lock('dump-' + feat):
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith('mir-%s-' % feat):
                os.remove(os.path.join(BUILD, f))
        e = env()
        sr = sysroot()
        e['LD_LIBRARY_PATH'] = sr + '/lib' + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
        e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'h-' + feat)
        e['HLL_DUMP_CRATE'] = 'hllroots'
        e['HLL_DUMP_OUT'] = out + '.tmp'
        e['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on'
        e['RUSTC_WRAPPER'] = exe
        # cargo must not consider the harness fresh
        tgt = e['CARGO_TARGET_DIR']
        lib = os.path.join(VERIF, 'harness')
        subprocess.run(['cargo', '+nightly', 'clean', '-p', 'hllroots', '--offline'], cwd=lib, env=e, capture_output=True)
        r = run(['cargo', '+nightly', 'check', '--offline', '--no-default-features'] + [x for x in FEATURES[feat] if x != '--no-default-features'], lib, e, 'dump-%s.log' % feat)
        if r.returncode or not os.path.exists(out + '.tmp'):
            raise BuildError('the library with the analysis roots does not compile (%s):\n%s' % (feat, r.stderr[-3000:]))
        os.rename(out + '.tmp', out)
    return out


if __name__ == '__main__':
    for f in sys.argv[1:] or ['std']:
        t = time.time()
        print(dump(f), round(time.time() - t, 1))
