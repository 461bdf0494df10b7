"""Scripted service: SCRIPT(method, kwargs, url) gives the response; CALLS records the requests."""
SCRIPT = [None]
CALLS = []
MADE = []


class JSONWSPClient(object):
    def __init__(self, description, **kw):
        self.description = description
        MADE.append(description)

    def __getattr__(self, method):
        if method.startswith('_'):
            raise AttributeError(method)

        def run(**kw):
            CALLS.append((self.description, method, kw))
            return SCRIPT[0](method, kw, self.description)
        return run
