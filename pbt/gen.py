"""Drawing helpers: every random choice goes through Hypothesis' choice sequence."""
import random

from hypothesis import strategies as st  # noqa: F401
from hypothesis.strategies._internal.strategies import SearchStrategy


class D(object):
    """Imperative facade over one Hypothesis test case."""

    __slots__ = ("d",)

    def __init__(self, data):
        self.d = data

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        return self.d.draw_integer(lo, hi, shrink_towards=max(lo, min(hi, 0)))

    def idx(self, n):
        return 0 if n <= 1 else self.d.draw_integer(0, n - 1)

    def bool(self, p=0.5):
        if p <= 0:
            return False
        if p >= 1:
            return True
        return self.d.draw_boolean(p)

    def pick(self, seq):
        return seq[self.idx(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], simplest first."""
        tot = sum(w for w, _ in pairs)
        k = self.int(0, tot - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def size(self, lo, hi, p=0.6):
        """A length between lo and hi, geometric above lo so that deletions shrink well."""
        n = lo
        while n < hi and self.d.draw_boolean(p):
            n += 1
        return n

    def many(self, lo, hi, fn, p=0.6):
        out = []
        while len(out) < hi:
            if len(out) >= lo and not self.d.draw_boolean(p):
                break
            self.d.start_span(1)
            try:
                out.append(fn())
            finally:
                self.d.stop_span()
        return out

    def repeat(self, n, fn):
        """About n draws (n may shrink towards zero), each its own span."""
        out = []
        p = 1.0 - 1.0 / (n + 1)
        while len(out) < 3 * n:
            if not self.d.draw_boolean(p):
                break
            self.d.start_span(2)
            try:
                out.append(fn())
            finally:
                self.d.stop_span()
        return out

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.idx(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def text(self, alphabet, lo, hi):
        n = self.int(lo, hi)
        return "".join(self.pick(alphabet) for _ in range(n))


class Gen(SearchStrategy):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def do_draw(self, data):
        return self.fn(D(data))

    def __repr__(self):
        return "Gen(%s)" % getattr(self.fn, "__name__", "fn")


class Plain(object):
    """Draws from a pseudo-random generator alone: what is drawn is not the simplest at first."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def draw_integer(self, lo, hi, shrink_towards=0):
        return self.r.randint(lo, hi)

    def draw_boolean(self, p=0.5):
        return self.r.random() < p

    def start_span(self, label):
        pass

    def stop_span(self):
        pass
