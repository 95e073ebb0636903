"""Which harness decides which property."""
GROUPS = {
    'core': {'main': './cmd/hcore', 'packages': ['.'],
             'props': ['C%02d' % i for i in list(range(1, 16)) + [19, 25]]},
    'event': {'main': './cmd/hev', 'packages': ['.', 'httptrace', 'sqltrace'], 'props': ['C16', 'C17', 'C18', 'C30']},
    'http': {'main': './cmd/hhttp', 'packages': ['.', 'httptrace'], 'props': ['C20', 'C21', 'C22', 'C23', 'C36']},
    'ot': {'main': './cmd/hot', 'packages': ['.', 'opentracing'], 'props': ['C24']},
    'py': {'main': './cmd/hpy', 'packages': ['.', 'httptrace', 'sqltrace'], 'props': ['C33'], 'python': True},
    'web': {'main': './cmd/hweb', 'packages': ['.', 'httptrace', 'sqltrace', 'traceapp'], 'props': ['C26', 'C27', 'C31', 'C34']},
    'serve': {'main': 'sourcegraph.com/sourcegraph/appdash/cmd/appdash', 'packages': ['.', 'httptrace', 'sqltrace', 'traceapp', 'cmd/appdash'],
              'inject': ['inject/serve', 'cmd/appdash'], 'props': ['C28', 'C29', 'C35', 'C37', 'C38']},
}

# Builds in which the units of a property run (True: with the race detector). Default: [False].
RACE = {
    'C03': [True, False],
    'C06': [True, False],
    'C07': [True, False],
    'C08': [True, False],
    'C10': [True, False],
    'C12': [False, True],
    'C13': [True, False],
    'C15': [False, True],
    'C16': [False, True],
    'C19': [True, False],
    'C20': [False, True],
    'C21': [False, True],
    'C22': [False, True],
    'C24': [False, True],
    'C27': [False, True],
    'C28': [True, False],
    'C29': [True, False],
    'C31': [False, True],
    'C36': [False, True],
    'C38': [False, True],
}

# Seconds of exploration.
BUDGET = {'quick': 60.0, 'thorough': 700.0}

LEVEL = {'C05': 'fault_enumeration', 'C12': 'fault_enumeration'}

ASSUME = [
    'The explored executions are those of the instrumented copy of /repo: package sync, time, os, net, crypto/tls, crypto/rand, log and the channel, '
    'go, select and map-range constructs are replaced by the explorer (go/mc, go/shim); their replacements are trusted to behave like the originals.',
    'Interleavings are explored at synchronisation and environment operations; unsynchronised accesses are looked for with the race detector in the '
    'units marked race_detector.',
    'Values outside the alphabets and histories longer than the bounds of the units are not covered.',
]

ASSUME_OF = {
    'C33': ['The Python client runs under Python 3 with the differences to Python 2 made up for (py/py2.py), on stand-ins for google.protobuf, Twisted, basictracer, '
            'strict_rfc3339, socket, random and time (py/stubs.py); these are trusted to behave like the originals.',
            'A turn of the Twisted reactor takes 50 ms (250 ms during long waits); what a lost connection has received is all of what was written or all but half of the last write.'],
}
