"""Building and running the real code natively for the bounded drivers.

Everything is compiled from REPO's current working tree into a scratch directory that is removed
afterwards.  A driver that does not build against changed code (a renamed function, say) has no
result; it never alarms because of that.
"""
import atexit, os, shutil, signal, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import cfront

NATIVE = os.path.join(HERE, 'native')
COM = ['src/common/log.c', 'src/common/util.c', 'lib/ev/ev.c', 'lib/wrappers.c', 'lib/progname.c']
LIBS = ['-lm', '-lssl', '-lcrypto', '-lconfuse', '-lsystemd']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute,alignment,pointer-overflow', '-fno-sanitize-recover=undefined']


class BuildError(Exception):
    pass


class Scratch:
    def __init__(self, tag='vfd'):
        self.d = tempfile.mkdtemp(prefix=tag + '-')
        os.chmod(self.d, 0o755)
        atexit.register(self.close)

    def close(self):
        if self.d and os.path.isdir(self.d):
            shutil.rmtree(self.d, ignore_errors=True)
        self.d = None


def flags():
    r = cfront.REPO
    return ['-I' + cfront.VERIF + '/include', '-DHAVE_CONFIG_H', '-DSYSCONFDIR="/nonexistent"', '-DLOCALSTATEDIR="/nonexistent"',
            '-DNSCA_VERSION="1.7"', '-DDEFAULT_CONF_FILE="/nonexistent/conf"'] + \
        ['-I' + os.path.join(r, x) for x in ('', 'lib', 'lib/ev', 'lib/pidfile', 'src/common', 'src/server', 'src/client')]


def cc(scratch, name, harness=None, srcs=(), libs=None, san=True, extra=()):
    """compile a harness (a file of drivers/native) with sources of REPO"""
    out = os.path.join(scratch.d, name)
    san_ = SAN if san is True else (san or [])
    base = ['gcc', '-g', '-O1', '-w', '-U_FORTIFY_SOURCE', '-fno-omit-frame-pointer'] + san_ + list(extra) + flags()
    units = []
    for x in srcs:
        x, fl = x if isinstance(x, tuple) else (x, [])
        units.append((x if x.startswith('/') else os.path.join(cfront.REPO, x), fl))
    if harness:
        units.insert(0, (os.path.join(NATIVE, harness), []))
    procs, objs = [], []
    for i, (u, fl) in enumerate(units):
        o = '%s.%d.o' % (out, i)
        objs.append(o)
        procs.append(subprocess.Popen(base + fl + ['-c', u, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    err = b''
    for p in procs:
        e, _ = p.communicate()
        if p.returncode != 0:
            err += e
    if err or any(p.returncode for p in procs):
        raise BuildError(err.decode('utf-8', 'replace')[-1500:])
    p = subprocess.run(base + objs + ['-o', out] + (LIBS if libs is None else list(libs)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(p.stdout.decode('utf-8', 'replace')[-1500:])
    return out


def env(**k):
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent',
         'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'exitcode=99:halt_on_error=1:print_stacktrace=1'}
    e.update(k)
    return e


def run(cmd, cwd, timeout=60, inp=None, **k):
    """-> (returncode or None on timeout, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, env=env(**k), start_new_session=True)
    try:
        out, _ = p.communicate(inp, timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


def harness(driver, prop, files, args, what, timeout=120, extra=(), libs=None, seed=1, nob=False, san=True):
    """build and run one C harness `driver.c`; it prints `FAIL[props] text' and exits 1 when the code misbehaves.
       Crashes and sanitizer reports count as failures as well."""
    s = Scratch()
    try:
        try:
            b = cc(s, driver, driver + '.c', files, libs=libs, extra=extra, san=san)
        except BuildError as e:
            return None, {'not built': str(e)[-600:]}
        w = os.path.join(s.d, 'w')
        os.mkdir(w)
        rc, out = run([b] + [str(a) for a in args], w, timeout)
        txt = out.decode('utf-8', 'replace')
        info = {'what': what, 'bounds': 'seed %s' % ' '.join(map(str, args)), 'rc': rc, 'output': txt[-300:]}
        if rc in (0, None, 77):
            return None, info
        fails = [l for l in txt.splitlines() if l.startswith('FAIL')]
        mine = [l for l in fails if l.startswith('FAIL ') or prop in l[5:l.index(']')].split(',')] if fails else None
        if rc == 1 and fails:
            if not mine:
                info['other properties'] = fails[:3]
                return None, info
            text = '\n'.join(mine[:5])
        elif rc == 99 or rc < 0 or rc == 134:
            text = txt[-3000:] or 'killed by signal %d' % -rc
        else:
            return None, info
        return {'text': text, 'cmd': 'cd /verif && python3-vt vf/drivers/replay.py %s %s' % (prop, ' '.join(map(str, [driver] + list(args)))),
                'key': text.split('\n')[0][:80]}, info
    finally:
        s.close()
