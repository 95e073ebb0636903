ID = 'c33-flush-limit'
PROPERTY = "C33"
NEEDS = 'more than 64 spans collected between two flushes, for instance while the server is away'
BREAKS = 'the spans beyond the 64th are lost'
EDITS = [('python/appdash/twcollector.py', '        for p in self._pending:\n            self._remote.writeMsg(p)\n', '        for _, p in zip(range(64), self._pending):\n            self._remote.writeMsg(p)\n')]
PY = "\nm = w.imp('appdash.twcollector', fromlist=('x',))\nf = m.RemoteCollectorFactory(reactor)\nc = reactor.connectTCP('localhost', 7701, f)\none = None\nfor n in (1, 100):\n    for i in range(n):\n        f.collect(app.SpanID(root=True))\n    if c.state == 'connecting':\n        c.accept()\n    for j in range(40):\n        reactor.turn(0.1)\n    if one is None:\n        one = len(reactor.transports[0].accepted)\nif len(reactor.transports[0].accepted) != 101 * one:\n    fail(len(reactor.transports[0].accepted) // one, 'of 101 spans were sent')\n"
