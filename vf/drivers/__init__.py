"""Native drivers: run the real code (compiled from /repo with ASan/UBSan) on concrete inputs.

They look for a concrete failing input when an obligation fails, and stand in - labelled bounded -
where the verifier cannot reach changed code.  They never count as proof.
"""
import os
from drivers import common as c


def ren(f, h='simren.h', more=()):
    """compile a file of REPO with the calls listed in the header redirected to simulated counterparts"""
    return (f, ['-include', os.path.join(c.NATIVE, h)] + list(more))


WRAPMEM, WRAPDUP = [['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free') + x)] for x in ((), ('strdup', 'vasprintf'))]
BASE = ['src/common/log.c', 'src/common/util.c', 'lib/wrappers.c', 'lib/progname.c']

# name -> files of REPO, cases (quick, thorough), what is run
DRV = {
    'buffer': dict(files=['src/common/buffer.c'] + c.COM, n=(4000, 60000), extra=WRAPMEM,
                   what='random histories of queue operations against an array'),
    'tls': dict(files=[ren('src/common/tls.c'), 'src/common/buffer.c'] + BASE, n=(4000, 100000),
                what='random histories of up to three connections with simulated peers and clock'),
    'fifo': dict(files=[ren('src/server/fifo.c', 'fiforen.h'), 'src/common/buffer.c'] + BASE, n=(3000, 60000),
                 what='random histories of submissions, pipe states and file system errors'),
    'server': dict(files=['src/server/server.c', ren('src/server/auth.c'), 'src/server/hash.c', 'src/server/conf.c', ren('src/common/tls.c'),
                          'src/common/buffer.c'] + BASE, n=(900, 25000), extra=WRAPDUP,
                   what='random configurations and conversations of simulated clients'),
    'client': dict(files=['src/client/client.c', ren('src/client/input.c', 'clren.h'), ren('src/client/parse.c', 'clren.h'), 'src/client/auth.c',
                          'src/client/conf.c', 'src/common/buffer.c', ren('src/common/log.c', 'clren.h'), 'src/common/util.c',
                          ren('lib/wrappers.c', 'clren.h'), 'lib/progname.c'], n=(5000, 150000),
                   what='random inputs and sessions with a simulated server'),
    'cconf': dict(files=['src/client/conf.c'] + c.COM, n=(2500, 80000), what='random client configuration files'),
    'main': dict(files=[ren('src/server/nsca-ng.c', 'mainren.h'), 'src/server/conf.c', 'src/server/hash.c',
                        ren('src/common/log.c', 'mainren.h', ['-DSIM_EXIT_ONLY']), 'src/common/util.c',
                        ren('lib/wrappers.c', 'mainren.h', ['-DSIM_EXIT_ONLY']), 'lib/progname.c'], n=(2000, 60000),
                 what='random configurations, failing system calls and signals'),
    'send': dict(files=[ren('src/client/send_nsca.c', 'sendren.h', ['-USYSCONFDIR', '-DSYSCONFDIR="."']), ren('src/client/conf.c', 'sendren.h', ['-DSIM_EXIT_ONLY']),
                        ren('src/common/log.c', 'sendren.h', ['-DSIM_EXIT_ONLY']), 'src/common/util.c',
                        ren('lib/wrappers.c', 'sendren.h', ['-DSIM_EXIT_ONLY']), 'lib/progname.c'], n=(3000, 100000), extra=['-Wl,--wrap=free'],
                 what='random command lines of the client'),
    'vlog': dict(files=[ren('src/common/log.c', 'vlogren.h'), 'lib/progname.c'], n=(40000, 1500000), what='random formats, arguments and error texts'),
    'embed_py': dict(files=[ren('python/client.c', 'embren.h')], n=(10000, 400000), extra=WRAPDUP, libs=[],
                     what='random histories of up to four connections with simulated servers'),
    'embed_pl': dict(files=[ren('perl/client.c', 'embren.h')], n=(10000, 400000), extra=WRAPDUP, libs=[],
                     what='random histories of up to four connections with simulated servers'),
    'pidfile': dict(files=[ren('lib/pidfile/pidfile.c', 'pidren.h'), ren('lib/pidfile/flopen.c', 'pidren.h')], n=(200000, 5000000),
                    what='random histories of PID file operations, failing system calls and other servers'),
}

REG = {
    'C07': ['fifo', 'buffer'], 'C08': ['fifo'], 'C09': ['fifo', 'buffer'],
    'C10': ['buffer'], 'C11': ['tls', 'buffer'], 'C04': ['tls', 'server'], 'C06': ['tls', 'server'], 'C12': ['tls', 'server'], 'C21': ['tls', 'server'], 'C25': ['tls', 'server'],
    'C13': ['client'], 'C14': ['client'], 'C15': ['client', 'buffer'], 'C16': ['client'],
    'C17': ['cconf', 'send'], 'C18': ['send'], 'C19': ['vlog'], 'C24': ['embed_py', 'embed_pl'],
    'C20': ['main'], 'C23': ['pidfile', 'main'], 'C26': ['main', 'send'],
    'C27': ['send', 'main'], 'C05': ['tls', 'server'], 'C01': ['server'], 'C02': ['server'], 'C03': ['server'], 'C22': ['server', 'main'],
}


def run1(name, prop, args, timeout=600):
    d = DRV[name]
    return c.harness(name, prop, d['files'], args, d['what'], timeout=timeout, extra=d.get('extra', ()), libs=d.get('libs'),
                     san=d.get('san', True))


def run(prop, failed, tier, seed):
    names = REG.get(prop)
    if not names:
        return None, {'note': 'no native driver for this property'}
    info = {}
    for m in names:
        d = DRV[m]
        q = tier == 'quick'
        found, inf = run1(m, prop, [seed, d['n'][0 if q else 1]], d.get('timeout', (100, 700))[0 if q else 1])
        info[m] = inf
        if found is not None:
            found['driver'] = m
            return found, info
    return None, info
