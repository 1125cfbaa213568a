"""One integer decides everything: all streams are derived from it by label hashing."""
import hashlib
import json
import random

import numpy as np


def h(*labels):
    raw = json.dumps(labels, sort_keys=True, default=str).encode()
    return int.from_bytes(hashlib.sha256(raw).digest()[:8], "big")


def stream(*labels):
    """A random.Random that is a pure function of the labels."""
    return random.Random(h(*labels))


def gen(*labels):
    """A numpy Generator that is a pure function of the labels (never the global one)."""
    return np.random.Generator(np.random.PCG64(h(*labels)))


def normals(n, *labels):
    """Prefix-stable: the first k entries do not depend on n."""
    return gen("normals", *labels).standard_normal(n)


def uniform(*labels):
    return gen("uniform", *labels).random()


def normal(*labels):
    return float(gen("normal", *labels).standard_normal())
