"""Scripted emitters that log every value they hand out.

They stand in for user-defined emitters: what a parent consumed is then
known exactly, whatever way (one at a time or in batches) it asked.
"""
from fauxdoc.emitter import Emitter


class Recorder(Emitter):
    """Emits script values in order (repeating), logs what it emits."""

    uv = None

    def __init__(self, script, uv=None):
        self.script = script
        self.uv = uv
        self.out = []
        self.requests = []
        self.resets = 0
        self.pos = 0

    @property
    def num_unique_values(self):
        return self.uv

    def reset(self):
        self.resets += 1
        self.pos = 0
        self.out.append('RESET')

    def value(self):
        v = self.script(self.pos) if callable(self.script) \
            else self.script[self.pos % len(self.script)]
        self.pos += 1
        self.out.append(v)
        return v

    def emit(self):
        self.requests.append(None)
        return self.value()

    def emit_many(self, number):
        self.requests.append(number)
        return [self.value() for _ in range(number)]

    def take(self):
        """Returns and clears the log of emitted values."""
        out, self.out = self.out, []
        return out


class SeededRecorder(Recorder):
    """Also has the attributes of an emitter that uses RNG."""

    def __init__(self, script, uv=None):
        super().__init__(script, uv)
        self.rng_seed = 'initial'
        self.seeds = []

    def seed(self, rng_seed):
        self.rng_seed = rng_seed
        self.seeds.append(rng_seed)


class Bare:
    """The least that can be called an emitter: no reset, no seed."""

    num_unique_values = None
    emits_unique_values = False

    def __init__(self, script):
        self.script = script
        self.pos = 0
        self.out = []

    def one(self):
        v = self.script(self.pos) if callable(self.script) \
            else self.script[self.pos % len(self.script)]
        self.pos += 1
        self.out.append(v)
        return v

    def __call__(self, number=None):
        if number is None:
            return self.one()
        if not isinstance(number, int) or number < 0:
            raise TypeError(f'emitter called with {number!r}')
        return [self.one() for _ in range(number)]

    def take(self):
        out, self.out = self.out, []
        return out

    def __eq__(self, other):
        return isinstance(other, Bare)

    __hash__ = None


KINDS = {'recorder': Recorder, 'seeded': SeededRecorder, 'bare': Bare}
