ID = 'c33-grandchild'
PROPERTY = "C33"
NEEDS = 'a span two levels below the root, or deeper'
BREAKS = 'such a span names its grandparent as its parent'
EDITS = [('python/appdash/spanid.py', '            self.parent = parent.span\n', '            self.parent = parent.parent or parent.span\n')]
PY = "\nr = app.SpanID(root=True)\nc = app.SpanID(parent=r)\ng = app.SpanID(parent=c)\nif c.parent != r.span or g.parent != c.span:\n    fail('parent %x of a child of %x' % (g.parent, c.span))\n"
