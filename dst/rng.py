"""All randomness of a run derives from one integer."""
import hashlib
import random

import numpy as np


def derive(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


def rand(*parts):
    return random.Random(derive(*parts))


def nprand(*parts):
    return np.random.Generator(np.random.PCG64(derive(*parts)))
