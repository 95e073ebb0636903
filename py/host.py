"""Runs one scenario of the Python client per request.

A request is a line of JSON. Every choice is asked for with a line "C n label" and answered with a line; the result is a line "R <json>".
"""
import io, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import py2, stubs

ROOT = sys.argv[1]
ALLOWED = {'itertools', 'functools', 'collections', 'sys', 'os', 'math', 'operator', 're', 'threading', 'copy', 'logging', 'warnings', 'datetime',
           'contextlib', 'json', 'errno', 'io', 'types', 'calendar', 'string', 'weakref', 'traceback'}


class Stop(Exception):
    pass


def choose(n, label):
    if n <= 1:
        return 0
    sys.stdout.write('C %d %s\n' % (n, label))
    sys.stdout.flush()
    l = sys.stdin.readline()
    if not l:
        os._exit(0)
    return int(l)


class StringIO(io.StringIO):
    def __init__(self, s=''):
        io.StringIO.__init__(self, s, newline='')


class Exec:
    def __init__(self, req):
        self.req = req
        self.clock = stubs.Clock()
        self.net = stubs.Net(choose, req.get('faults', 0), req.get('short', 0))
        self.reactor = stubs.Reactor(self.clock)
        self.drawn = []
        stubs._classes.clear()
        fakes = dict(stubs.protobuf())
        fakes.update(stubs.twisted(self.reactor))
        fakes['time'] = stubs.time_module(self.clock)
        fakes['random'] = stubs.random_module(self.bits)
        fakes['strict_rfc3339'] = stubs.rfc3339()
        fakes['basictracer'] = stubs.basictracer(self.clock, self.bits)
        fakes['socket'] = stubs.socket_module(self.net)
        fakes['__future__'] = stubs.module('__future__')
        s = stubs.module('struct')
        import struct
        s.pack = lambda *a: struct.pack(*a).decode('latin-1')
        s.unpack = lambda f, b: struct.unpack(f, b.encode('latin-1'))
        s.calcsize, s.error = struct.calcsize, struct.error

        class Struct(object):
            def __init__(self, f):
                self.format, self.size = f, struct.calcsize(f)

            def pack(self, *a):
                return s.pack(self.format, *a)

            def unpack(self, b):
                return s.unpack(self.format, b)
        s.Struct = Struct
        sio = stubs.module('StringIO', StringIO=StringIO)
        fakes['StringIO'], fakes['cStringIO'] = sio, sio
        fakes['struct'] = s
        self.world = py2.World(ROOT, fakes, ALLOWED)

    def bits(self, n):
        """The next random bits: counting, or chosen."""
        src = self.req.get('bits')
        if src:
            v = int(src[choose(len(src), 'bits')], 16)
        else:
            v = 0x1000 + 0x11 * (len(self.drawn) + 1)
        v &= (1 << n) - 1
        self.drawn.append(v)
        return v

    def mod(self, name):
        return self.world.imp(name, fromlist=('x',)) if '.' in name else self.world.imp(name)


def hexs(s):
    return s.encode('latin-1').hex()


def ident(s):
    return ['%x' % s.trace, '%x' % s.span, '%x' % s.parent]


def op(s, anns, **k):
    return dict(id=ident(s), anns=[[hexs(a), hexs(b)] for a, b in anns], **k)


def annotations(x, app, n, i):
    l = [('k%d' % j, 'v%d.%d' % (i, j)) for j in range(n)]
    if x.req.get('anns'):
        l = [('key%d' % j, 'v%d.%d' % (i, j)) for j in range(x.req['anns'])]
    return l, [app.Annotation(k, v) for k, v in l]


def sock(x):
    """A program that collects spans through the socket collector, while sends fall short, time out or fail."""
    app = x.mod('appdash')
    m = x.mod('appdash.sockcollector')
    debug = bool(choose(2, 'debug'))
    own = bool(choose(2, 'own socket'))
    rc = m.RemoteCollector(sock=stubs.Socket(x.net) if own else None, debug=debug)
    rc.connect(host='localhost', port=7701)
    ops = []
    span = app.SpanID(root=True)
    for i in range(x.req['n']):
        pairs, anns = annotations(x, app, i % 3, i)
        o = op(span, pairs, conn=len(x.net.conns) - 1, ok=True)
        ops.append(o)
        try:
            rc.collect(span, *anns)
        except Exception as e:
            o['ok'] = False
            o['err'] = '%s: %s' % (type(e).__name__, e)
            if not x.req.get('faults'):
                raise
            k = choose(3, 'after the error')
            if k == 1:  # the program goes on as if nothing had happened
                pass
            elif k == 2:  # it connects again
                try:
                    rc.close()
                except Exception as e:
                    return {'err': 'close after a failed collect: %s: %s' % (type(e).__name__, e)}
                rc.connect()
            else:
                break
        span = app.SpanID(parent=span)
    rc.close()
    return {'conns': [{'written': c.hex(), 'sent': c.hex()} for c in x.net.conns], 'ops': ops}


def encode(x):
    """Any span and annotations."""
    app = x.mod('appdash')
    m = x.mod('appdash.sockcollector')
    rc = m.RemoteCollector(debug=False)
    rc.connect()
    s = app.SpanID()
    ids = [int(v, 16) for v in x.req['ids']]
    s.trace, s.span, s.parent = ids[choose(len(ids), 'trace')], ids[choose(len(ids), 'span')], ids[choose(len(ids), 'parent')]
    pairs = []
    for i in range(choose(x.req['n'] + 1, 'annotations')):
        k = [bytes.fromhex(v).decode('latin-1') for v in x.req['keys']]
        v = [bytes.fromhex(v).decode('latin-1') for v in x.req['values']]
        pairs.append((k[choose(len(k), 'key')], v[choose(len(v), 'value')]))
    if x.req.get('sizes'):
        pairs.append(('k', 'x' * x.req['sizes'][choose(len(x.req['sizes']), 'size')]))
    rc.collect(s, *[app.Annotation(a, b) for a, b in pairs])
    rc.close()
    c = x.net.conns[0].hex()
    return {'conns': [{'written': c, 'sent': c}], 'ops': [op(s, pairs, conn=0, ok=True)], 'text': str(s)}


def ids(x):
    """Span IDs and their text."""
    app = x.mod('appdash')
    r = app.SpanID(root=True)
    d = list(x.drawn)
    l = [r]
    for i in range(x.req['n']):
        p = choose(len(l), 'parent')
        n = len(x.drawn)
        c = app.SpanID(parent=l[p])
        l.append(c)
        if len(x.drawn) - n < 1:
            return {'err': 'no random bits for the ID of a child span'}
        if (c.trace, c.parent) != (l[p].trace, l[p].span):
            return {'err': 'child %s of %s' % (ident(c), ident(l[p]))}
        if c.span not in x.drawn[n:]:
            return {'err': 'the ID of span %s is not what was drawn' % ident(c)}
    if len(d) < 2 or r.trace not in d or r.span not in d or r.parent != 0:
        return {'err': 'root span %s, drawn %s' % (ident(r), ['%x' % v for v in d])}
    return {'texts': [[str(s)] + ident(s) for s in l]}


WAITS = [0.1, 1.2, 4.0]


def tw(x):
    """A Twisted program: spans are collected while connections are made, refused and lost."""
    app = x.mod('appdash')
    m = x.mod('appdash.twcollector')
    facs, conns = [], []
    for i in range(x.req.get('factories', 1)):
        f = m.RemoteCollectorFactory(x.reactor, debug=bool(i % 2) or bool(x.req.get('debug')))
        facs.append(f)
        conns.append(x.reactor.connectTCP('localhost', 7701 + i, f))
    span = app.SpanID(root=True)
    ops = []
    owner = {}

    def run(d):
        t = 0
        while t < d - 1e-9:
            x.reactor.turn(0.05 if d < 2 else 0.25)
            t += 0.05 if d < 2 else 0.25
    log = []
    for step in range(x.req['n']):
        alts = [('wait', w) for w in WAITS] + [('collect', i) for i in range(len(facs))]
        for i, c in enumerate(conns):
            if c.state == 'connecting':
                alts += [('accept', i), ('refuse', i)]
            elif c.state == 'connected':
                alts += [('lose', i), ('cut', i)]
                if x.req.get('data'):
                    alts.append(('data', i))
        what, arg = alts[choose(len(alts), 'step')]
        log.append('%s %s' % (what, arg))
        if what == 'wait':
            run(arg)
        elif what == 'collect':
            pairs, anns = annotations(x, app, len(ops) % 3, len(ops))
            ops.append(op(span, pairs, conn=arg, ok=True))
            facs[arg].collect(span, *anns)
            span = app.SpanID(parent=span)
        elif what == 'accept':
            before = len(x.reactor.transports)
            conns[arg].accept()
            for t in range(before, len(x.reactor.transports)):
                owner[t] = arg
        elif what == 'refuse':
            conns[arg].failed()
        elif what == 'data':
            p, t = conns[arg].protocol, conns[arg].transport
            n = len(x.reactor.errors)
            x.reactor.guard(p.dataReceived, 'x')
            if len(x.reactor.errors) > n:  # Twisted closes a connection whose protocol fails
                conns[arg].lost(len(t.accepted))
        else:
            t = conns[arg].transport
            cut = len(t.accepted)
            if what == 'cut':
                cut -= (t.sizes[-1] + 1) // 2 if t.sizes else 0
            conns[arg].lost(cut)
    # From here on nothing fails.
    for _ in range(20):
        for i, c in enumerate(conns):
            if c.state == 'connecting':
                before = len(x.reactor.transports)
                c.accept()
                for t in range(before, len(x.reactor.transports)):
                    owner[t] = i
        run(4.0)
        if all(c.state == 'connected' for c in conns):
            break
    else:
        return {'err': 'the client does not connect any more: ' + '; '.join(log + x.reactor.errors)}
    run(4.0)
    out = []
    for i, t in enumerate(x.reactor.transports):
        sent = t.accepted if t.cut is None else t.accepted[:t.cut]
        out.append({'written': t.accepted.hex(), 'sent': sent.hex(), 'to': owner[i], 'lost': t.lost})
    return {'conns': out, 'ops': ops, 'log': log, 'errors': x.reactor.errors[:3]}


def twlong(x):
    """Long histories of a Twisted program."""
    app = x.mod('appdash')
    m = x.mod('appdash.twcollector')
    f = m.RemoteCollectorFactory(x.reactor)
    c = x.reactor.connectTCP('localhost', 7701, f)
    refusals, before, after, losses = [[0, 1, 3, 9, 14], [0, 1, 70, 400], [0, 1, 100], [0, 1, 5]][0:4]
    refusals, before, after, losses = (l[choose(len(l), n)] for l, n in ((refusals, 'refusals'), (before, 'before'), (after, 'after'), (losses, 'losses')))
    ops = []
    span = app.SpanID(root=True)

    def collect(n):
        nonlocal span
        for i in range(n):
            pairs, anns = annotations(x, app, len(ops) % 3, len(ops))
            ops.append(op(span, pairs, conn=0, ok=True))
            f.collect(span, *anns)
            span = app.SpanID(parent=span)

    def accept():
        for i in range(refusals + 1):
            for j in range(4000):
                if c.state == 'connecting':
                    break
                x.reactor.turn(0.5 if j < 20 else 5)
            else:
                return False
            if i < refusals:
                c.failed()
        c.accept()
        return True
    for i in range(losses + 1):
        collect(before)
        if not accept():
            return {'err': 'after %d refused connections and %d lost ones there is no further attempt to connect' % (refusals, i)}
        for j in range(30):
            x.reactor.turn(0.1)
        for k in range(3):
            collect(after)
            x.reactor.turn(0.1)
        for j in range(20):
            x.reactor.turn(0.1)
        if i < losses:
            c.lost(len(c.transport.accepted))
    return {'conns': [{'written': t.accepted.hex(), 'sent': t.accepted.hex(), 'to': 0, 'lost': t.lost} for t in x.reactor.transports], 'ops': ops,
            'log': ['%d refusals, %d before, %d after, %d losses' % (refusals, before, after, losses)], 'errors': x.reactor.errors[:3]}


def tracer(x):
    """OpenTracing spans."""
    app = x.mod('appdash')
    m = x.mod('appdash.sockcollector')
    rc = m.RemoteCollector()
    rc.connect()

    class Sampler(object):
        def sampled(self, trace_id):
            return yes
    k = choose(3, 'sampler')
    yes = k != 1
    t = app.create_new_tracer(rc, sampler=Sampler()) if k < 2 else app.create_new_tracer(rc)
    rec = []
    spans = []
    for i in range(1 + choose(x.req['n'], 'spans')):
        p = choose(i + 1, 'parent')
        b = {}
        s = t.start_span('op%d' % i, child_of=spans[p - 1][0] if p else None)
        if p:
            b.update(spans[p - 1][2])
        tags = {}
        for j in range(choose(1 + x.req['tags'], 'tags')):
            v = ['v%d' % j, 7 + j, ''][choose(3, 'value')]
            s.set_tag('t%d' % j, v)
            tags['t%d' % j] = str(v)
        k = choose(3, 'baggage')
        if k:
            k = 'b%d' % i if k == 1 else 't0'  # (the name of a tag, and of the baggage of the parent)
            s.set_baggage_item(k, 'x%d' % i)
            b[k] = 'x%d' % i
        if i == 0 and choose(2, 'log'):
            s.log_event('hello')
        spans.append((s, tags, b, i, (s.context.trace_id, s.context.span_id, s.parent_id or 0)))
    order = list(spans)
    if choose(2, 'children first'):
        order.reverse()
    for s, tags, b, i, ident_ in order:
        x.clock.now += 1.5
        start = s.start_time
        fin = [None, start + 2, start][choose(1 + x.req['tags'], 'finish')]
        end = x.clock.now if fin is None else fin
        s.finish(finish_time=fin)
        if yes:
            rec.append({'id': ['%x' % v for v in ident_], 'name': 'op%d' % i, 'start': start, 'end': end,
                        'anns': [[hexs(k), hexs(v)] for k, v in list(tags.items()) + list(b.items())]})
    rc.close()
    c = x.net.conns[0].hex()
    return {'conns': [{'written': c, 'sent': c}], 'spans': rec}


def events(x):
    """Every kind of event."""
    app = x.mod('appdash')
    m = x.mod('appdash.sockcollector')
    rc = m.RemoteCollector()
    rc.connect()
    texts = ['', 'a', 'Hello "w": \n', 'h\xc3\xa9', '0', '_schema:msg']
    times = [1500000000.0, 1500000000.25, 1.5, 1467368999.999999]

    def text(l=texts):
        return l[choose(len(l), 'text')]

    def when():
        return times[choose(len(times), 'time')]
    s = app.SpanID(root=True)
    k = x.req['kind']
    want = {}
    now = x.clock.now
    if k == 'name':
        t = text()
        e, want = app.SpanNameEvent(t), {'Name': t}
    elif k == 'msg':
        t = text()
        e, want = app.MsgEvent(t), {'Msg': t}
    elif k == 'log':
        x.clock.now = now = when()
        t = text()
        e, want = app.LogEvent(t), {'Msg': t, 'Time': now}
        x.clock.now += 5
    elif k == 'timespan':
        a, b = when(), when()
        e, want = app.TimespanEvent(a, b), {'S': a, 'E': b}
    elif k == 'sql':
        a, t, g = when(), text(), text()
        c = choose(2, 'recv')
        b = when() if c == 0 else now
        e = app.SQLEvent(t, a, recv=b, tag=g) if c == 0 else app.SQLEvent(t, a, tag=g)
        want = {'SQL': t, 'Tag': g, 'ClientSend': a, 'ClientRecv': b}
    else:
        def headers():
            k = choose(3, 'headers')
            return [{}, {'Foo-Bar': 'v1'}, {'Span-Id': '1/2', 'X': text(['', 'a']) if x.req.get('times') != 2 and k == 2 else ''}][k]
        empty = choose(3, 'without information')
        times = times[:x.req.get('times', 4)]
        req = {} if empty == 1 else {'Method': 'GET', 'URI': text(['/a', '/b?c=d']), 'Proto': 'HTTP/1.1', 'Headers': headers(), 'Host': 'localhost:8699',
               'RemoteAddr': '127.0.0.1:1', 'ContentLength': [28, 0][choose(1 if x.req.get('times') == 2 else 2, 'length')]}
        res = {} if empty == 2 else {'Headers': headers(), 'ContentLength': [0, 29, 1 << 40][choose(3, 'length')], 'StatusCode': [200, 404][choose(2, 'status')]}
        a = when()
        c = choose(2, 'recv')
        b = when() if c == 0 else now
        kw = dict(requestInfo=req, responseInfo=res)
        if c == 0:
            kw['recv'] = b
        want = {'Request.Method': '', 'Request.URI': '', 'Request.Proto': '', 'Request.Host': '', 'Request.RemoteAddr': '', 'Request.ContentLength': 0,
                'Request.Headers': {}, 'Response.Headers': {}, 'Response.ContentLength': 0, 'Response.StatusCode': 0}
        for n, d in (('Request.', req), ('Response.', res)):
            for kk, v in d.items():
                want[n + kk] = dict(v) if isinstance(v, dict) else v
        if k == 'server':
            r, u = text(['', '/r']), text(['', 'me'])
            e = app.HTTPServerEvent(a, route=r, user=u, **kw)
            want.update({'Route': r, 'User': u, 'ServerSend': a, 'ServerRecv': b})
        else:
            e = app.HTTPClientEvent(a, **kw)
            want.update({'ClientSend': a, 'ClientRecv': b})
    anns = app.MarshalEvent(e)
    pairs = [(a.key, a.value) for a in anns]
    rc.collect(s, *anns)
    rc.close()

    def lat(v):
        if isinstance(v, dict):
            return {a: lat(b) for a, b in v.items()}
        return {'s': hexs(v)} if isinstance(v, str) else v
    c = x.net.conns[0].hex()
    return {'conns': [{'written': c, 'sent': c}], 'ops': [op(s, pairs, conn=0, ok=True)], 'want': {a: lat(b) for a, b in want.items()}}


def main():
    while True:
        l = sys.stdin.readline()
        if not l:
            return
        req = json.loads(l)
        del py2.missing[:]
        try:
            x = Exec(req)
            r = globals()[req['scenario']](x)
        except py2.Unsupported as e:
            r = {'unsupported': str(e)}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = [f for f in tb if f.filename.startswith(ROOT)]
            where = ' at %s:%d' % (os.path.relpath(at[-1].filename, ROOT), at[-1].lineno) if at else ' ' + ''.join(traceback.format_tb(e.__traceback__)[-3:])
            r = {'err': '%s: %s%s' % (type(e).__name__, e, where)}
        if py2.missing:
            r = {'unsupported': 'the stand-ins lack ' + ', '.join(py2.missing[:3])}
        sys.stdout.write('R ' + json.dumps(r) + '\n')
        sys.stdout.flush()


main()
