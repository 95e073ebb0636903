"""Runs Python 2 sources under Python 3.

There is no Python 2 here, so the sources of the client are executed with the differences that matter made up for:
the print statement, "except A, e", implicit relative imports, integer division, __metaclass__, lists from dict methods,
byte strings. A Python 2 str is a Python 3 str of the characters 0-255 (one per byte); text is the class unicode.
"""
import ast, builtins, codecs, io, os, re, struct, sys, tokenize, types


class Unsupported(Exception):
    """The source uses something that this does not know."""


# What the sources asked of Python 2 or of a library that the stand-ins do not have: such an execution decides nothing.
missing = []

GONE = {'StringIO', 'cStringIO', 'Queue', 'thread', 'urllib2', 'urlparse', 'ConfigParser', 'cPickle', '__builtin__', 'commands', 'sets', 'exceptions',
        'httplib', 'SocketServer', 'UserDict', 'new', 'google', 'twisted', 'zope', 'basictracer', 'opentracing', 'six', 'strict_rfc3339', 'iso8601',
        'dateutil', 'pytz', 'gevent', 'attr', 'enum', 'future', 'builtins'}


def known(name):
    top = name.split('.')[0]
    return top in GONE or top in sys.stdlib_module_names


class unicode(builtins.str):
    """Text."""


class pybytearray(bytearray):
    def __init__(self, x=b'', *a):
        if isinstance(x, unicode):
            bytearray.__init__(self, x.encode(*a))
        else:
            bytearray.__init__(self, x.encode('latin-1') if isinstance(x, builtins.str) else x)

    def extend(self, x):
        bytearray.extend(self, x.encode('latin-1') if isinstance(x, builtins.str) else x)

    def __iadd__(self, x):
        self.extend(x)
        return self

    def __add__(self, x):
        r = pybytearray(self)
        r.extend(x)
        return r


def pyhex(n):
    return hex(n) + ('L' if abs(n) >= 1 << 63 else '')


def _view(b):
    return memoryview(b.encode('latin-1') if isinstance(b, builtins.str) else b)


def _buffer(b, off=0, size=None):
    return b[off:] if size is None else b[off:off + size]


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.str) and not isinstance(o, unicode)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.str)

    def __call__(cls, x='', *a):
        if isinstance(x, (bytes, bytearray)):
            return bytes(x).decode('latin-1')
        if isinstance(x, unicode):
            return builtins.str(x.encode('ascii').decode('ascii'))  # (UnicodeEncodeError, like Python 2)
        if isinstance(x, float):
            return '%.12g' % x if x != int(x) or abs(x) >= 1e11 else '%.1f' % x
        return builtins.str(x)

    def __getattr__(cls, name):
        return getattr(builtins.str, name)


class pystr(metaclass=_StrMeta):
    pass


class _UniMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, unicode)

    def __call__(cls, x='', enc='ascii', errors='strict'):
        if isinstance(x, unicode):
            return x
        if isinstance(x, builtins.str):
            return unicode(x.encode('latin-1').decode(enc, errors))
        return unicode(builtins.str(x))


class pyunicode(metaclass=_UniMeta):
    pass


class _BaseMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.str)


class basestring(metaclass=_BaseMeta):
    pass


def div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    return a / b


def encode(s, enc='ascii', errors='strict'):
    if enc.lower() in ('hex', 'hex_codec'):
        return s.encode('latin-1').hex()
    if not isinstance(s, unicode):
        s = s.encode('latin-1').decode('ascii')  # (Python 2 decodes it first)
    return s.encode(enc, errors).decode('latin-1')


def decode(s, enc='ascii', errors='strict'):
    if enc.lower() in ('hex', 'hex_codec'):
        return bytes.fromhex(s).decode('latin-1')
    return unicode(s.encode('latin-1').decode(enc, errors))


def _listed(name):
    def f(o, *a):
        r = getattr(o, name)(*a)
        return list(r) if isinstance(o, dict) else r
    return f


def _method(name, new):
    def f(o, *a):
        if isinstance(o, dict) and not hasattr(o, name):
            return new(o, *a)
        return getattr(o, name)(*a)
    return f


def _codec(name, f):
    return lambda o, *a: f(o, *a) if isinstance(o, builtins.str) else getattr(o, name)(*a)


METHODS = {
    'encode': _codec('encode', encode), 'decode': _codec('decode', decode),
    'items': _listed('items'), 'keys': _listed('keys'), 'values': _listed('values'),
    'iteritems': _method('iteritems', lambda d: iter(list(d.items()))),
    'iterkeys': _method('iterkeys', lambda d: iter(list(d.keys()))),
    'itervalues': _method('itervalues', lambda d: iter(list(d.values()))),
    'has_key': _method('has_key', lambda d, k: k in d),
    'next': _method('next', next),
}


class _Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and not self.truediv:
            return ast.copy_location(ast.Call(ast.Name('_py2_div', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and not self.truediv and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], ast.Call(
                ast.Name('_py2_div', ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHODS and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name('_py2_m_' + n.func.attr, ast.Load()), [n.func.value] + n.args, []), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'next' and not n.args:
            return ast.copy_location(ast.Call(ast.Name('next', ast.Load()), [n.func.value], []), n)
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        for s in n.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == '__metaclass__':
                n.keywords = [ast.keyword('metaclass', s.value)]
        return n

    def visit_ImportFrom(self, n):
        if n.module == '__future__':
            if any(a.name == 'division' for a in n.names):
                self.truediv = True
            return ast.copy_location(ast.Pass(), n)
        return n

    def visit_Constant(self, n):
        if n.kind == 'u':
            n.kind = None
            return ast.copy_location(ast.Call(ast.Name('_py2_u', ast.Load()), [n], []), n)
        return n

    def visit_JoinedStr(self, n):
        raise SyntaxError('f-string in Python 2')


def _statements(src):
    """Rewrites the statements of Python 2 that Python 3 cannot parse."""
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)

    def at(pos):
        return offs[pos[0] - 1] + pos[1]
    edits = []
    i, start = 0, True
    while i < len(toks):
        t = toks[i]
        if t.type in (tokenize.NEWLINE, tokenize.NL, tokenize.INDENT, tokenize.DEDENT, tokenize.COMMENT) or \
                (t.type == tokenize.OP and t.string == ';'):
            start = True if t.type not in (tokenize.NL, tokenize.COMMENT) else start
            i += 1
            continue
        if t.type == tokenize.OP and t.string in '([{':
            depth = 1
        # the end of this simple statement
        j, d = i, 0
        while j < len(toks) and not (d == 0 and (toks[j].type in (tokenize.NEWLINE, tokenize.ENDMARKER, tokenize.COMMENT) or toks[j].string == ';')):
            d += toks[j].string in ('(', '[', '{')
            d -= toks[j].string in (')', ']', '}')
            j += 1
        if start and t.type == tokenize.NAME and t.string == 'print' and not (i + 1 < j and toks[i + 1].string in ('=', '.')):
            body = src[at(t.end):at(toks[j - 1].end)] if j > i + 1 else ''
            s = body.strip()
            if s.startswith('>>'):  # (where it goes does not matter)
                s = s.partition(',')[2].strip()
            end = ''
            if s.endswith(','):
                end = ', end=" "'
                s = s[:-1]
            edits.append((at(t.start), at(toks[j - 1].end), 'print((%s)%s)' % (s, end) if s and _single(s) else 'print(%s%s)' % (s, end if s else '')))
            i = j
            continue
        if start and t.type == tokenize.NAME and t.string == 'except':
            d = 0
            for k in range(i + 1, j):
                s = toks[k].string
                d += s in ('(', '[', '{')
                d -= s in (')', ']', '}')
                if d == 0 and s == ':':
                    break
                if d == 0 and s == ',':
                    edits.append((at(toks[k].start), at(toks[k].end), ' as'))
        if start and t.type == tokenize.NAME and t.string == 'raise':
            d = 0
            for k in range(i + 1, j):
                s = toks[k].string
                d += s in ('(', '[', '{')
                d -= s in (')', ']', '}')
                if d == 0 and s == ',':
                    edits.append((at(toks[k].start), at(toks[k].end), '('))
                    edits.append((at(toks[j - 1].end), at(toks[j - 1].end), ')'))
                    break
        # a compound statement: what follows the colon on its line is a statement too
        start = t.type == tokenize.OP and t.string == ':'
        i += 1
    for a, b, s in sorted(edits, reverse=True):
        src = src[:a] + s + src[b:]
    return src


def _single(s):
    try:
        return not isinstance(ast.parse(s.strip(), mode='eval').body, ast.Tuple)
    except SyntaxError:
        return False


def compile2(path):
    src = open(path, 'rb').read().decode('latin-1')
    src = '\n'.join(re.sub(r'^[ \t]*', lambda m: m.group(0).expandtabs(8), l) for l in src.split('\n'))
    src = re.sub(r'^(#.*coding[:=].*)$', '#', src, flags=re.M)
    src = re.sub(r'\b(0[xX][0-9a-fA-F]+|\d+)[lL]\b', r'\1', src)
    src = src.replace('<>', '!=')
    try:
        r = _Rewrite()
        r.truediv = False
        tree = r.visit(ast.parse(_statements(src), path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)
    except (SyntaxError, tokenize.TokenError) as e:
        raise Unsupported('%s: %s' % (os.path.basename(path), e))


class World:
    """The modules of one execution: sources in root, stand-ins in fakes, the rest from Python 3."""
    cache = {}

    def __init__(self, root, fakes, allowed):
        self.root, self.fakes, self.allowed = root, fakes, allowed
        self.modules = {}
        self.out = io.StringIO()
        b = {k: getattr(builtins, k) for k in dir(builtins)}
        b.update(str=pystr, unicode=pyunicode, basestring=basestring, bytes=pystr, long=int, xrange=range, reduce=__import__('functools').reduce,
                 unichr=lambda n: unicode(chr(n)), map=lambda *a: list(map(*a)), filter=lambda *a: list(filter(*a)), zip=lambda *a: list(zip(*a)),
                 range=lambda *a: list(range(*a)), print=lambda *a, **k: print(*a, file=self.out, **k), __import__=self.imp,
                 _py2_div=div, _py2_u=lambda s: unicode(s.encode('latin-1').decode('utf-8')), cmp=lambda a, b: (a > b) - (a < b), open=None, input=None,
                 bytearray=pybytearray, hex=pyhex, memoryview=_view, buffer=_buffer)
        b.update({'_py2_m_' + k: f for k, f in METHODS.items()})
        self.builtins = types.ModuleType('__builtin__')
        self.builtins.__dict__.update(b)

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, pkg = self.path(name)
        if path is None:
            return None
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins.__dict__
        m.__package__ = name if pkg else name.rpartition('.')[0]
        self.modules[name] = m
        try:
            if path not in World.cache:
                World.cache[path] = compile2(path)
            exec(World.cache[path], m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        up, _, last = name.rpartition('.')
        if up:
            setattr(self.load(up), last, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        pkg = (globals or {}).get('__package__') or ''
        if level:  # an explicit relative import
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            m = self.chain(pkg + ('.' + name if name else ''))
            if m is None:
                raise ImportError('No module named ' + name)
            return self.from_(m, fromlist)
        for full in ([pkg + '.' + name] if pkg else []) + [name]:
            m = self.chain(full)
            if m is not None:
                if fromlist:
                    return self.from_(m, fromlist)
                return self.modules[full[:len(full) - len(name)] + name.split('.')[0]]
        if name in self.fakes:
            if fromlist:
                return self.fakes[name]
            return self.fakes[name.split('.')[0]]
        if name in self.allowed:
            return __import__(name, None, None, fromlist, 0)
        if known(name):
            missing.append('the module ' + name)
        raise ImportError('No module named ' + name)

    def chain(self, full):
        m = None
        parts = full.split('.')
        for i in range(len(parts)):
            m = self.load('.'.join(parts[:i + 1]))
            if m is None:
                return None
        return m

    def from_(self, m, fromlist):
        for n in fromlist or ():
            if n != '*' and not hasattr(m, n):
                self.load(m.__name__ + '.' + n)
        return m
