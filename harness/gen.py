"""Shared generators and independent oracles (never import these from the code under test)."""
from fractions import Fraction

PROPS = ["language", "license", "topic", "src", "quality"]
VALS = {"language": ["en", "de", "fr", "it", "jp"], "license": ["MIT", "CC", "Apache", "BSD"], "topic": ["law", "med", "code", "art"],
        "src": ["a", "b", "c", "d"], "quality": ["hi", "lo", "mid"]}


def rand_weights(rng, n):
    """n non-negative weights as [num, den]-free floats that sum to 1 (up to rounding); includes zeros and tiny ones"""
    kind = rng.randrange(6)
    if kind == 0:
        w = [rng.random() for _ in range(n)]
    elif kind == 1:
        w = [rng.randrange(0, 5) for _ in range(n)]
    elif kind == 2:
        w = [1.0] * n
    elif kind == 3:
        w = [rng.choice([1e-6, 1e-3, 0.01, 1.0, 5.0]) for _ in range(n)]
    elif kind == 4:
        w = [rng.randrange(1, 100) for _ in range(n)]
    else:
        w = [10 ** rng.uniform(-4, 1) for _ in range(n)]
    if sum(w) == 0:
        w[rng.randrange(n)] = 1
    s = sum(w)
    return [x / s for x in w]


def rand_chunk(rng):
    k = rng.randrange(5)
    return [rng.randrange(1, 6), rng.randrange(1, 30), rng.choice([1, 2, 3, 7, 10, 16, 64, 100, 128, 512, 1000, 1024]), rng.randrange(1, 5000),
            rng.choice([10 ** 5, 999983, 10 ** 6])][k]


def frac(x):
    return Fraction(x)


def keyid(props):
    """canonical identity of a property dict"""
    return tuple(sorted((k, tuple(sorted(map(str, v)))) for k, v in props.items()))


def kid(key):
    return keyid(key.properties)
