"""Stand-ins for the libraries that the Python client uses: protobuf, Twisted, basictracer, strict_rfc3339, socket, time, random."""
import builtins, math, random as _random, struct, time as _time, types
import py2
from py2 import unicode


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)

    def lacks(n):
        if not n.startswith('__'):
            py2.missing.append('%s of %s' % (n, name))
        raise AttributeError("'module' object has no attribute '%s'" % n)
    m.__getattr__ = lacks
    return m


# What the real objects have and the stand-ins lack.
REAL = set("""accept bind connect_ex detach dup get_inheritable getpeername getsockname getsockopt listen makefile recv_into recvfrom recvmsg sendto
sendmsg sendfile family type proto registerProducer unregisterProducer stopProducing pauseProducing resumeProducing loseWriteConnection getTcpKeepAlive
getTcpNoDelay failIfNotConnected stopReading startReading stopWriting startWriting connector protocol disconnected reset_delay run stop fireSystemEvent
removeSystemEventTrigger getDelayedCalls running suggestThreadPoolSize callInThread resolve iterate crash listenTCP connectSSL connectUNIX addReader
addWriter timeout host port bindAddress makeTransport timeoutID cancelTimeout buildProtocol connectionFailed connectionLost delay activate_delay func
args kw cancelled called callback errback paused pause unpause chainDeferred addTimeout cancel asFuture raiseException printTraceback getTraceback
getBriefTraceback printBriefTraceback cleanFailure type tb getErrorMessage stack frames log_event log add_tag log_kv set_parent
deferred clock withCount fromkeys WhichOneof ListFields ParseFromString MergeFromString FromString DiscardUnknownFields UnknownFields SerializePartial
ByteSize MergeFrom CopyFrom HasExtension ClearExtension RegisterExtension FindInitializationErrors reset start step call interval
forProtocol logPrefix __getstate__ startFactory stopFactory stopConnecting getDestination""".split())


class Partial(object):
    """A stand-in: what it lacks of the real thing is noted."""

    def __getattr__(self, n):
        if n in REAL:
            py2.missing.append('%s.%s' % (type(self).__name__, n))
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, n))


# ---- protobuf ----

class EncodeError(Exception):
    pass


def varint(n):
    if n < 0:
        n += 1 << 64
    s = ''
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            s += chr(b | 0x80)
        else:
            return s + chr(b)


def _encode_varint(write, value):
    for c in varint(value):
        write(c)


class _Desc:
    def __init__(self, **k):
        self.__dict__.update(k)
        fields = k.get('fields') or []
        self.fields_by_name = {f.name: f for f in fields}
        self.fields_by_number = {f.number: f for f in fields}
        self.message_types_by_name = {}
        self.nested_types_by_name = {d.name: d for d in k.get('nested_types') or []}


class _Field:
    def __init__(self, **k):
        self.__dict__.update(k)


INTS = {3: (-1 << 63, 1 << 63), 4: (0, 1 << 64), 5: (-1 << 31, 1 << 31), 6: (0, 1 << 64), 7: (0, 1 << 32), 13: (0, 1 << 32),
        14: (-1 << 31, 1 << 31), 15: (-1 << 31, 1 << 31), 16: (-1 << 63, 1 << 63), 17: (-1 << 31, 1 << 31), 18: (-1 << 63, 1 << 63)}


def check(f, v):
    if f.type in INTS:
        if isinstance(v, bool) or not isinstance(v, int):
            raise TypeError('%r has type %s, but expected one of: int, long' % (v, type(v)))
        if not INTS[f.type][0] <= v < INTS[f.type][1]:
            raise ValueError('Value out of range: %d' % v)
    elif f.type == 9:
        if not isinstance(v, builtins.str):
            raise TypeError('%r has type %s, but expected one of: str, unicode' % (v, type(v)))
        if not isinstance(v, unicode):
            try:
                v.encode('latin-1').decode('utf-8')
            except UnicodeDecodeError:
                raise ValueError("%r has type str, but isn't valid UTF-8 encoding" % v)
    elif f.type == 12:
        if not isinstance(v, builtins.str) or isinstance(v, unicode):
            raise TypeError('%r has type %s, but expected one of: str' % (v, type(v)))
    elif f.type == 8:
        if not isinstance(v, int):
            raise TypeError('%r has type %s, but expected one of: bool, int' % (v, type(v)))
    elif f.type in (1, 2):
        if not isinstance(v, (int, float)):
            raise TypeError('%r has type %s, but expected one of: float, int' % (v, type(v)))
    else:
        raise TypeError('type %d' % f.type)


class _Repeated(list):
    def __init__(self, f, owner):
        self._f, self._owner = f, owner

    def add(self, **k):
        m = _classes[id(self._f.message_type)](**k)
        list.append(self, m)
        self._owner._touch()
        return m

    def append(self, v):
        if self._f.type not in (10, 11):
            check(self._f, v)
        list.append(self, v)
        self._owner._touch()

    def extend(self, vs):
        for v in vs:
            self.append(v)


_classes = {}


class GeneratedProtocolMessageType(type):
    def __new__(mcs, name, bases, ns, **k):
        cls = type.__new__(mcs, name, bases, ns)
        if 'DESCRIPTOR' in ns:
            _classes[id(ns['DESCRIPTOR'])] = cls
        return cls

    def __init__(cls, name, bases, ns, **k):
        type.__init__(cls, name, bases, ns)


class Message:
    DESCRIPTOR = None

    def __init__(self, **k):
        d = self.__dict__
        d['_v'], d['_parent'], d['_set'] = {}, None, False
        for n, v in k.items():
            f = self._field(n)
            if f.label == 3:
                getattr(self, n).extend(v)
            elif f.type in (10, 11):
                getattr(self, n).CopyFrom(v)
            else:
                setattr(self, n, v)

    def _field(self, n):
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None:
            raise AttributeError("'%s' object has no attribute '%s'" % (self.DESCRIPTOR.name, n))
        return f

    def _touch(self):
        d = self.__dict__
        d['_set'] = True
        if d['_parent'] is not None:
            d['_parent']._touch()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = self._field(n)
        v = self._v
        if n not in v:
            if f.label == 3:
                v[n] = _Repeated(f, self)
            elif f.type in (10, 11):
                v[n] = _classes[id(f.message_type)]()
                v[n].__dict__['_parent'] = self
            else:
                return f.default_value
        return v[n]

    def __setattr__(self, n, val):
        f = self._field(n)
        if f.label == 3 or f.type in (10, 11):
            raise AttributeError('Assignment not allowed to composite field "%s" in protocol message object.' % n)
        check(f, val)
        self._v[n] = val
        self._touch()

    def HasField(self, n):
        f = self._field(n)
        return n in self._v and (f.type not in (10, 11) or self._v[n]._set)

    def ClearField(self, n):
        self._field(n)
        self._v.pop(n, None)

    def Clear(self):
        self._v.clear()

    def SetInParent(self):
        self._touch()

    def CopyFrom(self, o):
        self.Clear()
        self.MergeFrom(o)

    def MergeFrom(self, o):
        for f in self.DESCRIPTOR.fields:
            if f.name not in o._v:
                continue
            if f.label == 3:
                for x in o._v[f.name]:
                    if f.type in (10, 11):
                        getattr(self, f.name).add().MergeFrom(x)
                    else:
                        getattr(self, f.name).append(x)
            elif f.type in (10, 11):
                if o._v[f.name]._set:
                    getattr(self, f.name).MergeFrom(o._v[f.name])
                    getattr(self, f.name)._touch()
            else:
                setattr(self, f.name, o._v[f.name])
        self._touch()

    def IsInitialized(self):
        for f in self.DESCRIPTOR.fields:
            if f.label == 2 and not self.HasField(f.name):
                return False
            if f.type in (10, 11) and f.name in self._v:
                l = self._v[f.name] if f.label == 3 else [self._v[f.name]] if self._v[f.name]._set else []
                if not all(x.IsInitialized() for x in l):
                    return False
        return True

    def SerializeToString(self):
        if not self.IsInitialized():
            raise EncodeError('Message is missing required fields')
        return self.SerializePartialToString()

    def ByteSize(self):
        return len(self.SerializePartialToString())

    def SerializePartialToString(self):
        s = []
        for f in sorted(self.DESCRIPTOR.fields, key=lambda f: f.number):
            if f.name not in self._v or f.label != 3 and not self.HasField(f.name):
                continue
            for x in self._v[f.name] if f.label == 3 else [self._v[f.name]]:
                s.append(value(f, x))
        return ''.join(s)


def value(f, x):
    t = f.type

    def tag(w):
        return varint(f.number << 3 | w)
    if t == 10:
        return tag(3) + x.SerializePartialToString() + tag(4)
    if t == 11:
        b = x.SerializePartialToString()
        return tag(2) + varint(len(b)) + b
    if t in (9, 12):
        b = x.encode('utf-8').decode('latin-1') if isinstance(x, unicode) else builtins.str(x)
        return tag(2) + varint(len(b)) + b
    if t in (6, 16):
        return tag(1) + struct.pack('<Q' if t == 6 else '<q', x).decode('latin-1')
    if t in (7, 15):
        return tag(5) + struct.pack('<I' if t == 7 else '<i', x).decode('latin-1')
    if t == 1:
        return tag(1) + struct.pack('<d', x).decode('latin-1')
    if t == 2:
        return tag(5) + struct.pack('<f', x).decode('latin-1')
    if t in (17, 18):
        return tag(0) + varint((x << 1) ^ (x >> 63))
    return tag(0) + varint(int(x))


def protobuf():
    descriptor = module('descriptor', FileDescriptor=_Desc, Descriptor=_Desc, FieldDescriptor=_Field)
    message = module('message', Message=Message, EncodeError=EncodeError, Error=EncodeError)
    reflection = module('reflection', GeneratedProtocolMessageType=GeneratedProtocolMessageType)
    encoder = module('encoder', _EncodeVarint=_encode_varint, _EncodeSignedVarint=_encode_varint, _VarintBytes=varint,
                     _VarintEncoder=lambda: _encode_varint, _SignedVarintEncoder=lambda: _encode_varint,
                     _VarintSize=lambda n: len(varint(n)))
    internal = module('internal', encoder=encoder)
    pb2 = module('descriptor_pb2')
    pb = module('protobuf', descriptor=descriptor, message=message, reflection=reflection, internal=internal, descriptor_pb2=pb2)
    google = module('google', protobuf=pb)
    return {'google': google, 'google.protobuf': pb, 'google.protobuf.descriptor': descriptor, 'google.protobuf.message': message,
            'google.protobuf.reflection': reflection, 'google.protobuf.descriptor_pb2': pb2, 'google.protobuf.internal': internal,
            'google.protobuf.internal.encoder': encoder}


# ---- time and random ----

class Clock:
    def __init__(self, now=1500000000.25):
        self.now = now


def time_module(clock):
    def sleep(d):
        clock.now += d
    return module('time', time=lambda: clock.now, sleep=sleep, clock=lambda: clock.now, gmtime=lambda t=None: _time.gmtime(clock.now if t is None else t),
                  localtime=lambda t=None: _time.gmtime(clock.now if t is None else t), strftime=_time.strftime, mktime=_time.mktime)


def random_module(bits):
    """bits(n): n random bits."""
    class SystemRandom(_random.Random):
        def __new__(cls, *a):
            return _random.Random.__new__(cls)

        def __init__(self, *a):
            pass

        def random(self):
            return bits(53) / float(1 << 53)

        def getrandbits(self, n):
            return bits(n)

        def seed(self, *a, **k):
            pass
    r = SystemRandom()
    m = module('random', SystemRandom=SystemRandom, Random=SystemRandom)
    for n in ('random', 'getrandbits', 'randint', 'randrange', 'choice', 'uniform', 'seed', 'shuffle', 'sample'):
        setattr(m, n, getattr(r, n))
    return m


# ---- strict_rfc3339 ----

def rfc3339():
    def to(ts):
        whole = int(math.floor(ts))
        frac = ts - whole
        us = int(round(frac * 1e6))
        if us == 1000000:
            whole, us = whole + 1, 0
        s = '%04d-%02d-%02dT%02d:%02d:%02d' % tuple(_time.gmtime(whole))[:6]
        if us:
            s += ('.%06d' % us).rstrip('0')
        return s + 'Z'
    return module('strict_rfc3339', timestamp_to_rfc3339_utcoffset=to, timestamp_to_rfc3339_localoffset=lambda t: to(t)[:-1] + '+00:00',
                  now_to_rfc3339_utcoffset=lambda integer=True: to(0))


# ---- basictracer ----

class SpanRecorder(object):
    def record_span(self, span):
        pass


class SpanContext(object):
    def __init__(self, trace_id=None, span_id=None, baggage=None, sampled=True):
        self.trace_id, self.span_id, self.baggage, self.sampled = trace_id, span_id, baggage, sampled


class Span(Partial):
    def __init__(self, tracer, operation_name=None, context=None, parent_id=None, tags=None, start_time=None):
        self._tracer, self.context = tracer, context
        self.operation_name, self.start_time = operation_name, start_time
        self.parent_id, self.duration = parent_id, -1
        self.tags = tags
        self.logs = []

    @property
    def tracer(self):
        return self._tracer

    def set_operation_name(self, n):
        self.operation_name = n
        return self

    def set_tag(self, k, v):
        if self.tags is None:
            self.tags = {}
        self.tags[k] = v
        return self

    def log_event(self, event, payload=None):
        self.logs.append((event, payload))
        return self

    def set_baggage_item(self, k, v):
        b = dict(self.context.baggage or {})
        b[k] = v
        self.context = SpanContext(self.context.trace_id, self.context.span_id, b, self.context.sampled)
        return self

    def get_baggage_item(self, k):
        return (self.context.baggage or {}).get(k)

    def finish(self, finish_time=None):
        f = self._tracer._clock.now if finish_time is None else finish_time
        self.duration = f - self.start_time
        self._tracer.record(self)


class DefaultSampler(object):
    def __init__(self, rate=1):
        self.rate = rate

    def sampled(self, trace_id):
        return trace_id % self.rate == 0


def basictracer(clock, bits):
    class BasicTracer(object):
        _clock = clock

        def __init__(self, recorder=None, sampler=None):
            self.recorder = recorder
            self._sampler = DefaultSampler(1) if sampler is None else sampler

        def start_span(self, operation_name=None, child_of=None, references=None, tags=None, start_time=None, ignore_active_span=False):
            start = clock.now if start_time is None else start_time
            parent = child_of.context if isinstance(child_of, Span) else child_of
            ctx = SpanContext(span_id=bits(64))
            pid = None
            if parent is None:
                ctx.trace_id = bits(64)
                ctx.sampled = self._sampler.sampled(ctx.trace_id)
            else:
                ctx.trace_id, ctx.sampled = parent.trace_id, parent.sampled
                if parent.baggage is not None:
                    ctx.baggage = dict(parent.baggage)
                pid = parent.span_id
            return Span(self, operation_name, ctx, pid, tags, start)

        def record(self, span):
            self.recorder.record_span(span)
    return module('basictracer', BasicTracer=BasicTracer, SpanRecorder=SpanRecorder, Sampler=object, DefaultSampler=DefaultSampler)


# ---- sockets ----

class error(IOError):
    pass


class timeout(error):
    pass


class Net:
    """The sockets of one execution. choose(n, label) decides what the environment does."""

    def __init__(self, choose, faults, short):
        self.choose, self.faults, self.short = choose, faults, short
        self.conns = []
        self.down = False  # the server cannot be reached

    def connect(self, addr):
        if self.down:
            raise error(111, 'Connection refused')
        c = bytearray()
        self.conns.append(c)
        return len(self.conns) - 1


class Socket(Partial):
    def __init__(self, net, *a):
        self._net, self._conn, self._closed, self._broken = net, None, False, False
        self._timeout = None

    def connect(self, addr):
        if not (isinstance(addr, tuple) and len(addr) == 2):
            raise TypeError('connect() argument must be tuple')
        if self._closed:
            raise error(9, 'Bad file descriptor')
        if self._conn is not None:
            raise error(106, 'Transport endpoint is already connected')
        self._conn = self._net.connect(addr)

    def send(self, data, flags=0):
        if not isinstance(data, (builtins.str, bytes, bytearray, memoryview)):
            raise TypeError('must be string or buffer')
        b = data.encode('latin-1') if isinstance(data, builtins.str) else bytes(data)
        if self._closed:
            raise error(9, 'Bad file descriptor')
        if self._conn is None or self._broken:
            raise error(32, 'Broken pipe')
        n = self._net
        sizes = [len(b)]
        for s in (1, len(b) // 2, len(b) - 1) if n.short else ():
            if 0 < s < len(b) and s not in sizes:
                sizes.append(s)
        k = n.choose(len(sizes) + (2 if n.faults else 0), 'send')
        if k >= len(sizes):
            n.faults -= 1
            if k == len(sizes):
                raise timeout('timed out')
            self._broken = True
            raise error(104, 'Connection reset by peer')
        n.short -= k > 0
        n.conns[self._conn] += b[:sizes[k]]
        return sizes[k]

    def sendall(self, data, flags=0):
        if not isinstance(data, builtins.str):
            data = bytes(data)
        while data:
            data = data[self.send(data):]

    def recv(self, n, flags=0):
        return ''

    def close(self):
        self._closed = True

    def shutdown(self, how):
        pass

    def fileno(self):
        return 9

    def getpeername(self):
        if self._conn is None:
            raise error(107, 'Transport endpoint is not connected')
        return ('127.0.0.1', 7701)

    def getsockname(self):
        return ('127.0.0.1', 40001)

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        pass

    def setsockopt(self, *a):
        pass


def socket_module(net):
    def create_connection(addr, timeout=None, source_address=None):
        s = Socket(net)
        s.settimeout(timeout)
        s.connect(addr)
        return s
    return module('socket', create_connection=create_connection, socket=lambda *a: Socket(net), error=error, timeout=timeout, AF_INET=2,
                  SOCK_STREAM=1, SOL_SOCKET=1, SO_KEEPALIVE=9, IPPROTO_TCP=6, TCP_NODELAY=1, SHUT_RDWR=2, SHUT_WR=1)


# ---- Twisted ----

class Failure(Partial):
    def __init__(self, e):
        self.value = e

    def getErrorMessage(self):
        return builtins.str(self.value)

    def check(self, *a):
        return None

    def trap(self, *a):
        raise self.value


class Deferred(Partial):
    def __init__(self):
        self.result = None

    def addCallback(self, *a, **k):
        return self
    addErrback = addBoth = addCallbacks = addCallback


class Call(Partial):
    def __init__(self, reactor, at, f, a, k):
        self.reactor, self.at, self.f, self.a, self.k = reactor, at, f, a, k
        self.done = False

    def cancel(self):
        self.done = True

    def active(self):
        return not self.done

    def reset(self, s):
        self.at = self.reactor.clock.now + s

    def getTime(self):
        return self.at


class Transport(Partial):
    disconnecting = False

    def __init__(self, reactor):
        self.reactor = reactor
        self.accepted = bytearray()  # what was given to it while it was connected
        self.sizes = []
        self.lost = False
        self.cut = None              # how much of it arrived

    def write(self, data):
        if not isinstance(data, (builtins.str, bytes)) or isinstance(data, unicode):
            raise TypeError('Data must not be unicode')
        b = data.encode('latin-1') if isinstance(data, builtins.str) else data
        if self.lost or self.disconnecting or not b:
            return
        self.accepted += b
        self.sizes.append(len(b))

    def writeSequence(self, l):
        for d in l:
            self.write(d)

    def loseConnection(self):
        self.disconnecting = True

    abortConnection = loseConnection

    def getPeer(self):
        return None
    getHost = getPeer

    def setTcpKeepAlive(self, *a):
        pass
    setTcpNoDelay = setTcpKeepAlive


class Connector(Partial):
    def __init__(self, reactor, factory):
        self.reactor, self.factory = reactor, factory
        self.state = 'disconnected'
        self.transport = self.protocol = None

    def connect(self):
        if self.state != 'disconnected':
            raise RuntimeError("can't connect in this state")
        self.state = 'connecting'
        self.factory.doStart()
        self.factory.startedConnecting(self)

    def stopConnecting(self):
        self.failed()

    def disconnect(self):
        if self.transport:
            self.transport.loseConnection()

    def accept(self):
        self.state = 'connected'
        p = self.reactor.guard(self.factory.buildProtocol, None)
        if p is None:
            self.lost(None)
            return
        self.protocol = p
        self.transport = Transport(self.reactor)
        self.reactor.transports.append(self.transport)
        self.reactor.guard(p.makeConnection, self.transport)

    def failed(self):
        self.state = 'disconnected'
        self.reactor.guard(self.factory.clientConnectionFailed, self, Failure(error('Connection was refused by other side.')))
        self.factory.doStop()

    def lost(self, cut):
        self.state = 'disconnected'
        t, p = self.transport, self.protocol
        self.transport = self.protocol = None
        r = Failure(error('Connection to the other side was lost in a non-clean fashion.'))
        if t is not None:
            t.lost, t.cut = True, cut
            p.connected = 0
            self.reactor.guard(p.connectionLost, r)
        self.reactor.guard(self.factory.clientConnectionLost, self, r)
        self.factory.doStop()

    def getDestination(self):
        return None


class Reactor(Partial):
    def __init__(self, clock):
        self.clock = clock
        self.calls, self.connectors, self.transports, self.errors = [], [], [], []

    def guard(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as e:  # Twisted logs it and goes on
            self.errors.append('%s: %s' % (type(e).__name__, e))
            return None

    def callLater(self, d, f, *a, **k):
        assert d >= 0
        c = Call(self, self.clock.now + d, f, a, k)
        self.calls.append(c)
        return c

    callFromThread = lambda self, f, *a, **k: self.callLater(0, f, *a, **k)

    def callWhenRunning(self, f, *a, **k):
        return self.callLater(0, f, *a, **k)

    def addSystemEventTrigger(self, *a, **k):
        pass

    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        c = Connector(self, factory)
        self.connectors.append(c)
        c.connect()
        return c

    def seconds(self):
        return self.clock.now

    def turn(self, d):
        """One turn of the loop; it takes d seconds."""
        self.clock.now += d
        due = [c for c in self.calls if c.at <= self.clock.now + 1e-9]
        self.calls = [c for c in self.calls if c.at > self.clock.now + 1e-9]
        due.sort(key=lambda c: c.at)
        for c in due:
            if not c.done:
                c.done = True
                self.guard(c.f, *c.a, **c.k)


def twisted(reactor):
    class BaseProtocol(Partial):
        connected = 0
        transport = None

        def makeConnection(self, transport):
            self.connected = 1
            self.transport = transport
            self.connectionMade()

        def connectionMade(self):
            pass

    class Protocol(BaseProtocol):
        factory = None

        def dataReceived(self, data):
            pass

        def connectionLost(self, reason=None):
            pass

    class Factory(Partial):
        protocol = None
        numPorts = 0
        noisy = True

        def doStart(self):
            if self.numPorts == 0:
                self.startFactory()
            self.numPorts += 1

        def doStop(self):
            if self.numPorts == 0:
                return
            self.numPorts -= 1
            if self.numPorts == 0:
                self.stopFactory()

        def startFactory(self):
            pass

        def stopFactory(self):
            pass

        def buildProtocol(self, addr):
            p = self.protocol()
            p.factory = self
            return p

    class ClientFactory(Factory):
        def startedConnecting(self, connector):
            pass

        def clientConnectionFailed(self, connector, reason):
            pass

        def clientConnectionLost(self, connector, reason):
            pass

    class ReconnectingClientFactory(ClientFactory):
        maxDelay = 3600
        initialDelay = 1.0
        factor = 2.7182818284590451
        jitter = 0.11962656472
        delay = initialDelay
        retries = 0
        maxRetries = None
        _callID = None
        connector = None
        clock = None
        continueTrying = 1

        def clientConnectionFailed(self, connector, reason):
            if self.continueTrying:
                self.connector = connector
                self.retry()

        clientConnectionLost = clientConnectionFailed

        def retry(self, connector=None):
            if not self.continueTrying:
                return
            if connector is None:
                connector = self.connector
            if self.maxRetries is not None and self.retries >= self.maxRetries:
                return
            self.retries += 1
            self.delay = min(self.delay * self.factor, self.maxDelay)
            self._callID = reactor.callLater(self.delay, connector.connect)

        def stopTrying(self):
            if self._callID:
                self._callID.cancel()
                self._callID = None
            self.continueTrying = 0

        def resetDelay(self):
            self.delay = self.initialDelay
            self._callID = None
            self.retries = 0
            self.continueTrying = 1

    class LoopingCall(Partial):
        running = False
        interval = None

        def __init__(self, f, *a, **k):
            self.f, self.a, self.k = f, a, k
            self.call = None

        def start(self, interval, now=True):
            assert not self.running, 'Tried to start an already running LoopingCall.'
            if interval < 0:
                raise ValueError('interval must be >= 0')
            self.running = True
            self.interval = interval
            if now:
                self()
            else:
                self.call = reactor.callLater(interval, self)
            return Deferred()

        def stop(self):
            assert self.running, 'Tried to stop a LoopingCall that was not running.'
            self.running = False
            if self.call is not None:
                self.call.cancel()
                self.call = None

        def __call__(self):
            self.call = None
            try:
                self.f(*self.a, **self.k)
            except Exception as e:  # the loop ends, the error goes to its Deferred
                self.running = False
                reactor.errors.append('%s: %s' % (type(e).__name__, e))
                return
            if self.running:
                self.call = reactor.callLater(self.interval, self)

    defer = module('defer', Deferred=Deferred)
    log = module('log', msg=lambda *a, **k: None, err=lambda *a, **k: None)
    failure = module('failure', Failure=Failure)
    python = module('python', log=log, failure=failure)
    protocol = module('protocol', Protocol=Protocol, Factory=Factory, ClientFactory=ClientFactory, ReconnectingClientFactory=ReconnectingClientFactory,
                      connectionDone=Failure(error('done')))

    def deferLater(clock, delay, f, *a, **k):
        reactor.callLater(delay, f, *a, **k)
        return Deferred()
    task = module('task', LoopingCall=LoopingCall, deferLater=deferLater)
    internet = module('internet', protocol=protocol, task=task, reactor=reactor, defer=defer)
    tw = module('twisted', internet=internet, python=python)
    return {'twisted': tw, 'twisted.internet': internet, 'twisted.internet.protocol': protocol, 'twisted.internet.task': task,
            'twisted.internet.reactor': reactor, 'twisted.internet.defer': defer, 'twisted.python': python, 'twisted.python.log': log,
            'twisted.python.failure': failure}
