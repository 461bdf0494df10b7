class attachment(object):
    def __init__(self, bufferobj, headers=None):
        self.bufferobj = bufferobj
        self.headers = headers or {}

    def read(self, *args):
        return self.bufferobj.read(*args)

    def close(self):
        self.bufferobj.close()
