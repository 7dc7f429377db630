"""Drives emitters, fields and schemas built from a description."""
from fxmon import schemas, specs


class Subject:
    """An emitter or a schema with one interface for the drivers."""

    def __init__(self, case, seed=...):
        self.is_schema = 'fields' in case
        if self.is_schema:
            fspecs = case['fields']
            if seed is not ...:
                fspecs = [{**fs, 'seed': seed} for fs in fspecs]
            self.obj = schemas.build_schema(fspecs)
        else:
            spec = case['spec']
            if seed is not ... and specs.has_rng(spec):
                spec = {**spec, 'seed': seed}
            self.obj = specs.build(spec)

    def call(self, n):
        if self.is_schema:
            if n is None:
                return self.obj()
            return [self.obj() for _ in range(n)]
        return self.obj() if n is None else self.obj(n)

    def drive(self, calls):
        return [self.call(n) for n in calls]

    def reset(self):
        if self.is_schema:
            self.obj.reset_fields()
        else:
            self.obj.reset()

    def seed(self, s):
        if self.is_schema:
            self.obj.seed_fields(specs.dec(s))
        elif hasattr(self.obj, 'seed'):
            self.obj.seed(specs.dec(s))

    def set_rng_seed(self, s):
        if self.is_schema:
            for field in self.obj.fields.values():
                field.rng_seed = specs.dec(s)
        elif hasattr(self.obj, 'rng_seed'):
            self.obj.rng_seed = specs.dec(s)


def gen_subject(rng, schema=0.3, random_only=False):
    """Generates {'spec'} or {'fields'}, always with fixed seeds."""
    if rng.random() < schema:
        while True:
            fspecs = schemas.gen_fields(rng, seeds=False)
            if not random_only or all(
                    fs['em']['k'] in ('copy', 'based') or
                    specs.is_random(fs['em']) for fs in fspecs):
                break
        for fs in fspecs:
            fs['seed'] = specs.gen_seed(rng)
            if random_only:
                for part in ('repeat', 'gate'):
                    if fs.get(part) and not specs.is_random(fs[part]):
                        fs[part] = None
        return {'fields': fspecs}
    return {'spec': specs.gen_emitter(rng, rng.choice([0, 1, 2, 3]),
                                      random_only=random_only)}


def gen_calls_for(rng, case, lo=1, hi=8):
    if 'fields' in case:
        return [rng.choice([None, None, 1, 2, 3])
                for _ in range(rng.randint(lo, hi))]
    return specs.gen_calls(rng, case['spec'], lo, hi, big=0.02)
