"""Stand-in for the ladon web service library (not installed here): decorated methods stay plain methods."""


def ladonize(*args, **kw):
    def deco(fn):
        fn._ladon = (args, kw)
        return fn
    return deco
