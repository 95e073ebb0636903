ID = 'c33-tag-baggage'
PROPERTY = "C33"
NEEDS = 'a span with a tag and a baggage item of the same name'
BREAKS = 'the baggage item is not recorded'
EDITS = [('python/appdash/recorder.py', '            for key in span.context.baggage:\n', '            for key in set(span.context.baggage) - set(span.tags or ()):\n')]
PY = "\ngot = []\nclass C:\n    def collect(self, s, *anns):\n        got.extend((a.key, a.value) for a in anns)\nt = app.create_new_tracer(C())\ns = t.start_span('op')\ns.set_tag('user', 'u1')\ns.set_baggage_item('user', 'u2')\ns.finish()\nif ('user', 'u1') not in got or ('user', 'u2') not in got:\n    fail(got)\n"
