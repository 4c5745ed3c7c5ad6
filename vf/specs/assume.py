"""Assumptions that are listed in the evidence of every check / of single properties."""
GENERAL = [
    'machine integers are exact (wrap-around and overflow obligations); floating point (ev_tstamp) is treated as real numbers',
    'objects are smaller than 2^40 bytes; distinct allocations do not overlap; typed accesses to one cell use one type',
    'allocation failure terminates the process (xmalloc and friends die), except where malloc itself is called',
    'the configuration of config.h in /verif/include is the one that is built (HAVE_POSIX_AIO, EV_MULTIPLICITY=0, ...)',
    'callbacks are only run by the event loop on active or fed watchers (libev), one at a time',
]
PROPS = {}
