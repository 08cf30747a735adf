"""Builds the MIR dump of /repo's current working tree and hands it to the analyses; writes evidence and
violation reports.  Nothing here runs code of /repo: the crates are only type-checked by rustc and their MIR dumped."""
import os, sys, json, hashlib, subprocess, time, shutil, fcntl, glob, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
EVID = os.path.join(VERIF, 'evidence')

CONFIGS = {
    # tag: (crates to dump, cargo args)
    'full': ('multicalc,multicalc_robot_model', ['-p', 'multicalc-robot-model', '-p', 'multicalc', '--all-features']),
    'core': ('multicalc', ['-p', 'multicalc', '--no-default-features']),
}


class Broken(Exception):
    """the analysed tree lacks something the check needs (an anchor is gone): reported as a violation"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git', '__pycache__'))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, '/').encode())
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def nightly_env():
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    return env


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.path = os.path.join(CACHE, name + '.lock')

    def __enter__(self):
        self.fh = open(self.path, 'w')
        fcntl.flock(self.fh, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.fh, fcntl.LOCK_UN)
        self.fh.close()


def build_fm():
    """the polyhedral kernel used by the abstract interpreter"""
    src = os.path.join(VERIF, 'driver', 'fm', 'fm.rs')
    key = tree_hash([src])
    so = os.path.join(CACHE, 'libfm-%s.so' % key)
    with Lock('fm'):
        if not os.path.exists(so):
            r = sh(['rustc', '+nightly', '-O', '--edition', '2021', '--crate-type', 'cdylib', '-o', so + '.tmp', src], env=nightly_env())
            if r.returncode != 0:
                sys.stderr.write(r.stdout)
                raise SystemExit('fm kernel build failed')
            os.rename(so + '.tmp', so)
    return so


def build_driver():
    src = os.path.join(VERIF, 'driver')
    key = tree_hash([os.path.join(src, 'src'), os.path.join(src, 'Cargo.toml')])
    exe = os.path.join(CACHE, 'driver', 'debug', 'mirdump')
    stamp = os.path.join(CACHE, 'driver.stamp')
    with Lock('driver'):
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe, key
        env = nightly_env()
        env['CARGO_TARGET_DIR'] = os.path.join(CACHE, 'driver')
        r = sh(['cargo', '+nightly', 'build', '--offline'], cwd=src, env=env)
        if r.returncode != 0:
            sys.stderr.write(r.stdout)
            raise SystemExit('driver build failed')
        open(stamp, 'w').write(key)
    return exe, key


def extract(tag):
    """returns the list of dump files for configuration `tag`"""
    exe, dkey = build_driver()
    crates, args = CONFIGS[tag]
    srcs = [os.path.join(REPO, p) for p in ('Cargo.toml', 'Cargo.lock', 'crates', 'demos', 'tools', 'examples') if os.path.exists(os.path.join(REPO, p))]
    key = hashlib.sha256((tree_hash(srcs) + dkey + tag).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, 'mir-%s-%s' % (tag, key))
    done = os.path.join(out, 'done')
    want = [os.path.join(out, c + '.json') for c in crates.split(',')]
    with Lock('mir-' + tag):
        if os.path.exists(done):
            return want
        for old in glob.glob(os.path.join(CACHE, 'mir-%s-*' % tag)):
            shutil.rmtree(old, ignore_errors=True)
        tmp = os.path.join(CACHE, 'tmp-%s-%d' % (tag, os.getpid()))
        os.makedirs(tmp)
        env = nightly_env()
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
        env['LD_LIBRARY_PATH'] = sysroot + '/lib'
        env['MIRDUMP_OUT'] = tmp
        env['MIRDUMP_CRATES'] = crates
        env['RUSTC_WORKSPACE_WRAPPER'] = exe
        tgt = os.path.join(CACHE, 'tgt-%s-%d' % (tag, os.getpid()))
        env['CARGO_TARGET_DIR'] = tgt
        r = sh(['cargo', '+nightly', 'check', '--offline', '--locked'] + args, cwd=REPO, env=env)
        shutil.rmtree(tgt, ignore_errors=True)
        if r.returncode != 0 or not all(os.path.exists(os.path.join(tmp, c + '.json')) for c in crates.split(',')):
            sys.stderr.write(r.stdout)
            shutil.rmtree(tmp, ignore_errors=True)
            raise SystemExit('the tree in %s does not build: nothing to analyse' % REPO)
        os.rename(tmp, out)
        open(done, 'w').write('ok')
    return want


STOP = 'core::fmt,std::fmt,core::panicking,std::rt,alloc::,libm::,multicalc::libm::,std::option::unwrap_failed,std::result::unwrap_failed,std::option::expect_failed'


def extract_laws(features):
    """monomorphic MIR of every law in /verif/laws and of everything it calls in /repo and core"""
    exe, dkey = build_driver()
    laws = os.path.join(VERIF, 'laws')
    srcs = [os.path.join(REPO, p) for p in ('Cargo.toml', 'crates') if os.path.exists(os.path.join(REPO, p))]
    key = hashlib.sha256((tree_hash(srcs) + dkey + tree_hash([os.path.join(laws, 'src'), os.path.join(laws, 'Cargo.toml')]) + features).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, 'laws-%s' % key)
    want = os.path.join(out, 'laws.mono.json')
    with Lock('laws'):
        if os.path.exists(os.path.join(out, 'done')):
            return want
        for old in glob.glob(os.path.join(CACHE, 'laws-*')):
            if os.path.isdir(old):
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        # a private copy, so that nothing is written next to the committed crate
        src = os.path.join(out, 'crate')
        shutil.copytree(laws, src, ignore=shutil.ignore_patterns('target'))
        if REPO != '/repo':
            ct = os.path.join(src, 'Cargo.toml')
            text = open(ct).read().replace('/repo/', REPO + '/')
            open(ct, 'w').write(text)
        env = nightly_env()
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
        env.update({'LD_LIBRARY_PATH': sysroot + '/lib', 'MIRDUMP_OUT': out, 'MIRDUMP_CRATES': 'multicalc,laws', 'MIRDUMP_MONO': 'laws',
                    'MIRDUMP_STOP': STOP, 'RUSTC_WRAPPER': exe, 'CARGO_TARGET_DIR': os.path.join(out, 'target')})
        env.pop('RUSTC_WORKSPACE_WRAPPER', None)
        r = sh(['cargo', '+nightly', 'check', '--offline', '--features', features], cwd=src, env=env)
        shutil.rmtree(os.path.join(out, 'target'), ignore_errors=True)
        if r.returncode != 0 or not os.path.exists(want):
            sys.stderr.write(r.stdout[-6000:])
            shutil.rmtree(out, ignore_errors=True)
            raise SystemExit('the laws do not build against the tree in %s' % REPO)
        open(os.path.join(out, 'done'), 'w').write('ok')
    return want


_progs = {}


def program(tag='full'):
    if tag not in _progs:
        import mirlib
        _progs[tag] = mirlib.Program(extract(tag))
    return _progs[tag]


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


class Report:
    """collects obligations and violations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.violations = []
        self.obl = 0
        self.rules = {}
        self.samples = []
        self.cov = {}

    def ok(self, rule, what=None):
        self.obl += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if what is not None and sum(1 for s in self.samples if s['rule'] == rule) < 4:
            self.samples.append({'rule': rule, 'construct': str(what)})

    def bad(self, rule, key, msg, where=None):
        """key identifies the construct without line numbers"""
        self.obl += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += 1
        self.violations.append({'rule': rule, 'key': key, 'msg': msg, 'where': where})

    def floor(self, rule, n):
        """anti-vacuity: the rule must have been applied to at least n constructs"""
        got = self.rules.get(rule, [0, 0])[0]
        if got < n:
            self.bad('floor', 'floor:%s' % rule, 'rule "%s" applied to %d constructs, expected at least %d: the constructs it decides are gone or no longer recognised' % (rule, got, n))

    def finish(self, explanation, trusted=None):
        known = [f for f in load_findings() if f['property'] == self.pid and f.get('status') == 'open']
        keys = {f['key']: f for f in known}
        new = [v for v in self.violations if v['key'] not in keys]
        hit = sorted({v['key'] for v in self.violations if v['key'] in keys})
        os.makedirs(EVID, exist_ok=True)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': dict({
                'explanation': explanation,
                'obligations': self.obl,
                'discharged': self.obl - len(self.violations),
                'per_rule': {k: {'constructs': v[0], 'failed': v[1]} for k, v in sorted(self.rules.items())},
                'samples': self.samples[:40],
                'trusted_base': trusted or ['rustc type checker and MIR construction', 'the rules in /verif/props and the engines in /verif/lib'],
            }, **self.cov),
            'violations': len(new), 'violation_list': new, 'known_findings_hit': hit,
            'wall_s': round(time.time() - self.t0, 2),
        }
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for k in hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, keys[k]['what']))
        print('%s: %d obligations over %s, %d violations (%d known) in %.1fs' % (
            self.pid, self.obl, ', '.join('%s=%d' % (k, v[0]) for k, v in sorted(self.rules.items())), len(self.violations), len(self.violations) - len(new), time.time() - self.t0))
        if new:
            rp = os.path.join(EVID, self.pid + '.replay.json')
            with open(rp, 'w') as fh:
                json.dump(new, fh, indent=1)
            for v in new[:25]:
                print('  [%s] %s -- %s%s' % (v['rule'], v['key'], v['msg'], (' @ ' + v['where']) if v['where'] else ''))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0
