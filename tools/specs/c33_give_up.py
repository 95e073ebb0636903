ID = 'c33-give-up'
PROPERTY = "C33"
NEEDS = 'a server that is away for several attempts to connect'
BREAKS = 'the Twisted collector stops trying to connect, all spans are lost'
EDITS = [('python/appdash/twcollector.py', "        self._log('connection failed:', reason.getErrorMessage())\n", "        self._log('connection failed:', reason.getErrorMessage())\n        if self.retries >= 5:\n            self.stopTrying()\n")]
PY = "\nm = w.imp('appdash.twcollector', fromlist=('x',))\nf = m.RemoteCollectorFactory(reactor)\nc = reactor.connectTCP('localhost', 7701, f)\nf.collect(app.SpanID(root=True))\nfor i in range(8):\n    for j in range(8000):\n        if c.state == 'connecting':\n            break\n        reactor.turn(0.5)\n    else:\n        fail('no attempt to connect after', i)\n    if i < 7:\n        c.failed()\nc.accept()\nfor j in range(20):\n    reactor.turn(0.5)\nif not reactor.transports[-1].accepted:\n    fail('nothing was sent')\n"
