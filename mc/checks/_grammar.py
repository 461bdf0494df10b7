"""All sentences of the policy grammar up to a length, generated from the productions (not by parsing)."""
from functools import lru_cache


class Grammar:
    """symbols: single letters. a attribute, b boolean, i atom (int/float/str/null), { } , ( ) o operator
    & AND, | OR, ! NOT."""

    def __init__(self, maxlen):
        self.maxlen = maxlen
        self._set = lru_cache(None)(self.set_)
        self._var = lru_cache(None)(self.var_)
        self._exp = lru_cache(None)(self.exp_)
        self._term = lru_cache(None)(self.term_)
        self._pol = lru_cache(None)(self.pol_)

    def set_(self, n):
        if n == 2:
            return frozenset(['{}'])
        if n >= 3 and (n - 2) % 2 == 1:
            return frozenset(['{' + ','.join(['i'] * ((n - 1) // 2)) + '}'])
        return frozenset()

    def var_(self, n):
        if n == 1:
            return frozenset(['a', 'i'])
        return self._set(n)

    def exp_(self, n):
        out = set()
        if n == 1:
            out |= {'a', 'b'}
        if n == 2:
            out |= {'!a', '!b'}
        if n >= 3:
            out |= {'(' + p + ')' for p in self._pol(n - 2)}
            for k in range(1, n - 1):
                for l in self._var(k):
                    for r in self._var(n - 1 - k):
                        out.add(l + 'o' + r)
        if n >= 4:
            out |= {'!(' + p + ')' for p in self._pol(n - 3)}
        return frozenset(out)

    def term_(self, n):
        out = set(self._exp(n))
        for k in range(1, n - 1):
            for l in self._term(k):
                for r in self._exp(n - 1 - k):
                    out.add(l + '&' + r)
        return frozenset(out)

    def pol_(self, n):
        out = set(self._term(n))
        for k in range(1, n - 1):
            for l in self._pol(k):
                for r in self._term(n - 1 - k):
                    out.add(l + '|' + r)
        return frozenset(out)

    def sentences(self):
        s = set()
        for n in range(1, self.maxlen + 1):
            s |= self._pol(n)
        return s
