ID = 'c33-varint'
PROPERTY = "C33"
NEEDS = 'a message of 16384 bytes or more'
BREAKS = 'the length prefix of the Python client is wrong, the server cannot decode what follows'
EDITS = [('python/appdash/varint.py', 'import google.protobuf.internal.encoder as enc\nfrom google.protobuf.internal.encoder import _EncodeVarint\n', '# (Lengths are small: they are encoded here.)\n'), ('python/appdash/varint.py', '    _EncodeVarint(buf.append, i)\n', '    if i >= 0x80:\n        buf.append(chr(i & 0x7f | 0x80))\n        i >>= 7\n    buf.append(chr(i & 0x7f))\n')]
PY = "\nm = w.imp('appdash.sockcollector', fromlist=('x',))\nrc = m.RemoteCollector()\nrc.connect()\nrc.collect(app.SpanID(root=True), app.Annotation('k', 'x' * 20000))\nb = bytes(net.conns[0])\nn = shift = i = 0\nwhile True:\n    n |= (b[i] & 0x7f) << shift\n    shift += 7\n    i += 1\n    if not b[i - 1] & 0x80:\n        break\nif n != len(b) - i:\n    fail('length prefix', n, 'of a message of', len(b) - i)\n"
