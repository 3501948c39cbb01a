"""Which rules decide which property (text in meta.py)."""
from .meta import P
ASSUMPTIONS = [
    'rustc nightly MIR of the crate is what is analysed; dependencies and std are represented by the models in sa/models.py',
    'slice and Vec lengths are at most 2^47 (64-bit target)',
]


def expand(names, rules):
    out = []
    for n in names:
        hit = [n] if n in rules else [r for r in rules if r.startswith(n + '.')]
        assert hit, n
        for r in hit:
            if r not in out:
                out.append(r)
    return out


PROPS = {p['id']: p for p in P}
