"""Claimed properties: technique and note; reasons for those that are not claimed."""
T = 'stateless model checking of the instrumented implementation: '
TRUST = ' Trusted: the explorer and its shims (go/mc, go/shim), the reference model of the harness, the Go compiler.'
CLAIMS = {
    'C01': (T + 'exhaustive enumeration of span sets and arrival orders',
            'Every parent-acyclic set of up to 4 spans (5 with the root; more in thorough) in every order of arrival, with repetitions, deletions and a '
            'second trace, is executed on the real store and compared with a reference forest after every step.' + TRUST),
    'C02': (T + 'exhaustive enumeration of operation sequences and of aliasing between argument slices',
            'All sequences of collections with fresh and shared argument slices, overwrites, appends, flushes and deletes through seven kinds of '
            'collector, compared with a list per span after every step.' + TRUST),
    'C03': (T + 'all interleavings up to a preemption bound, with linearisation check and race detector',
            'All schedules of 2-3 threads with operations from an alphabet of twelve; every history must have a linearisation, every answer must stay as it '
            'was returned; the same schedules run under the race detector with the hand-offs of the scheduler hidden from it.' + TRUST),
    'C04': (T + 'exhaustive enumeration of histories before and after a save and load',
            'All histories up to the bound before a save, and all continuations run on original, loaded copy and reference model; all truncations of '
            'the images of small states.' + TRUST),
    'C05': (T + 'every crash point, torn write and failing system call of save histories on a model file system',
            'Each history of saves is replayed with a crash after every file operation, with every admissible loss of unsynced data, and with every '
            'single failing operation; the file must then load as a complete earlier state.' + TRUST),
    'C06': (T + 'exhaustive enumeration of operation and clock sequences, and interleavings with the eviction',
            'All sequences of collections, clock advances and restarts against a reference model of ages, and all schedules of collections racing with an '
            'eviction.' + TRUST),
    'C07': (T + 'exhaustive enumeration of collection sequences against a reference ring, and interleavings',
            'All sequences of collections for limits 0-3 compared with a reference model; all schedules of two to three collecting threads within the '
            'preemption bound, with race detector.' + TRUST),
    'C08': (T + 'all interleavings up to a preemption bound in virtual time',
            'Two to three threads that collect and flush against the timer goroutine; exactly-once delivery, order and absence of races and deadlocks '
            'are checked on every schedule.' + TRUST),
    'C09': (T + 'exhaustive enumeration of histories of collections, flushes, timers and failures against a reference model',
            'All sequences with sizes around the limit, slow and failing deliveries, compared with an exact model of the queue.' + TRUST),
    'C10': (T + 'all interleavings of Stop with collections, flushes and the timer',
            'Stop before, during and after everything, once and repeatedly; no delivery begins and no Collect is accepted after it.' + TRUST),
    'C11': (T + 'exhaustive products of values and of the places at which the network splits the stream',
            'Client and server run over a model network; boundary values, sizes around every varint boundary and short reads at every byte.' + TRUST),
    'C12': (T + 'every placement of failing dials and writes, at every byte, over sequences of collections',
            'Writes are cut after every number of bytes, with connections that break or stay usable; the server must collect exactly the acknowledged '
            'packets and no garbled ones.' + TRUST),
    'C13': (T + 'all interleavings of sharing, racing and closing clients up to a preemption bound',
            'Goroutines that share a remote collector, several clients, and Close at every moment; the server must collect whole packets exactly once and '
            'in the order of each sender; under the race detector too.' + TRUST),
    'C14': (T + 'exhaustive enumeration of client byte streams over an alphabet of packets and malformed pieces',
            'All sequences of well-formed, truncated, oversized and malformed pieces, every truncation point and every splitting, with other clients '
            'connected before, meanwhile and afterwards.' + TRUST),
    'C15': (T + 'exhaustive enumeration of recorder operation sequences, with failing collectors',
            'All sequences of recordings, children, finishes, failures and error queries against a reference model of what is pending and reported; '
            'concurrent use under the race detector.' + TRUST),
    'C16': (T + 'exhaustive enumeration of products of boundary values over a family of event types, every map order',
            'Event types covering every kind of field, nesting and container are marshalled and unmarshalled with all combinations of boundary values and '
            'under every iteration order of maps.' + TRUST),
    'C17': (T + 'exhaustive enumeration of annotation orders and of subsets of events sharing a span',
            'All permutations and subsets of events with foreign annotations, and events of every type with annotations that fit no field; decoded events compared with the ones recorded.' + TRUST),
    'C18': (T + 'exhaustive enumeration of texts over an alphabet up to a length, and of boundary identifiers',
            'All strings over an alphabet of digits, letters, slashes and foreign characters up to the bound, and boundary and single-bit identifiers, '
            'against a reference grammar.' + TRUST),
    'C19': (T + 'all interleavings of generating goroutines and exhaustive enumeration of initial random states around every carry',
            'Every placement of a carry in the counter, every value of every byte of the initial state, long runs over the two lowest carries, all '
            'schedules of two to four generating goroutines, under the race detector too.' + TRUST),
    'C20': (T + 'exhaustive products of span headers, configurations and handlers, and all interleavings of concurrent requests',
            '17 values of each of the two headers in every combination, every configuration and kind of handler; two to three concurrent requests under every '
            'schedule within the bound, under the race detector too.' + TRUST),
    'C21': (T + 'exhaustive enumeration of handlers as sequences of response operations with every outcome of the writes',
            'Every handler up to the bound runs with and without the middleware on equal model writers that behave like the ones of net/http; what client and '
            'handler see is compared and the recorded event checked.' + TRUST),
    'C22': (T + 'exhaustive products of requests and outcomes, all interleavings of requests and cancellations',
            'Nine kinds of request and seven outcomes in every combination in virtual time; concurrent requests and cancellations under every schedule within '
            'the bound, under the race detector too.' + TRUST),
    'C23': (T + 'exhaustive products of redaction lists, header names, spellings, values and places',
            'Every placement of up to two headers in requests and responses, headers and trailers, client and server side, under different orders of map '
            'iteration.' + TRUST),
    'C24': (T + 'exhaustive products of spans and tracer operation sequences, every pattern of collector failures, every map order, and interleavings',
            'Spans with all combinations of identifiers, times, tags, logs and baggage of every kind, all sequences of tracer operations, every placement of '
            'failing collector calls, and concurrent recording under the race detector.' + TRUST),
    'C25': (T + 'exhaustive enumeration of histories over several stores with every pattern of failures and contents',
            'Stores and queryers that answer every call in every way (success, absent, two failures), and real memory stores with all contents, filters and '
            'orders of iteration, against a reference evaluation.' + TRUST),
    'C26': (T + 'exhaustive enumeration of trees with all assignments of small time spans and names against a reference evaluation',
            'All tree shapes with all time spans and names up to the bound, all selections and view modes, every answer of the aggregator, read through the '
            'HTTP answers of the web UI.' + TRUST),
    'C27': (T + 'exhaustive enumeration of traces, ways of exporting, prior contents, truncations, byte changes and store failures, and all interleavings of imports',
            'Every export of all small traces and awkward contents is imported into instances of every prior state; every truncation and many changes of every '
            'byte; concurrent imports under every schedule within the bound, under the race detector too.' + TRUST),
    'C28': (T + 'exhaustive enumeration of near-miss credentials, settings, routes and request sequences against the program as it is started, and all interleavings of requests',
            'appdash serve itself is started by its command line in the model world; every truncation, extension and byte change of the right header, every '
            'setting up to the bound, all routes and methods, all sequences of requests, and concurrent requests under the race detector.' + TRUST),
    'C29': (T + 'all interleavings of recorders, chunking collectors, network, server and saving, every kill point of a save, and all restart histories',
            'appdash serve is started by its command line in the model world and fed by real recorders and collectors over the model network; all schedules '
            'within the bound; killed at every point of a save, restarted, continued and restarted again; all histories of spans, saves and restarts.' + TRUST),
    'C30': (T + 'exhaustive enumeration of small traces with timed events',
            'All tree shapes with all placements of timed events, names and foreign annotations up to the bound, against a reference evaluation.' + TRUST),
    'C31': (T + 'exhaustive products of identifiers, routes, annotations, store failures and request sequences, and all interleavings of pages with collection',
            'Every page for all small traces and awkward annotations, malformed and unknown identifiers at every place, failing stores, all sequences of requests '
            'on one instance; pages, imports and collections under every schedule within the bound, under the race detector too.' + TRUST),
    'C33': ('stateless model checking of the Python client, driven choice by choice by the explorer, against the real Go server: exhaustive enumeration of inputs, short and '
            'failing sends, and event orders of the Twisted reactor',
            'The Python sources are executed with the differences between Python 2 and 3 made up for, on stand-ins for protobuf, Twisted, basictracer and sockets whose every '
            'decision is a choice of the explorer; the bytes they send are given to the real collector server and event decoder. Trusted: the explorer, the stand-ins (py/stubs.py) '
            'and the Python 2 dialect (py/py2.py): neither Python 2 nor the libraries are installed.'),
    'C34': (T + 'exhaustive enumeration of trees with all assignments of timed events and names against a reference evaluation',
            'All trees with all sets of timed events up to the bound; the data of the timeline is read from every page and compared item by item.' + TRUST),
    'C35': (T + 'exhaustive enumeration of settings and of histories of spans, uploads, waits, kills and restarts, and of truncated store files',
            'appdash serve is started by its command line in the model world with every combination of settings; histories in virtual time are compared with a '
            'reference model of ages and of the saved state; every truncation of a store file and single failures of file operations at the start.' + TRUST),
    'C36': (T + 'exhaustive enumeration of forests of requests across services with every outcome, and all interleavings of concurrent ones',
            'Real middleware and transports of one or two services call each other over a model network in virtual time, for all forests of requests up to the bound, '
            'one after another and at the same time under every schedule within the bound, under the race detector too.' + TRUST),
    'C37': (T + 'every failing dial and write at every packet of the command, and enumeration of settings and random numbers',
            'appdash send is started by its command line in the model world, with a real collector server on the other side, for every single failure of the network and every setting; '
            'math/rand is replaced by the explorer, which enumerates the numbers drawn for a trace.' + TRUST),
    'C38': (T + 'exhaustive enumeration of sequences of requests to the demo and all interleavings of concurrent ones',
            'appdash demo is started by its command line in the model world; all sequences of requests, and pairs under every schedule within the bound, are followed to the pages '
            'of the traces they link to.' + TRUST),
}
NA = {
    'C32': 'Uniform distribution is a statistical claim about AES output; no enumeration of executions decides it.',
}
