"""All randomness of the simulator: named sub-streams of one integer seed (stable across processes and hash seeds)."""
import hashlib, random


def derive(seed, *names):
    h = hashlib.sha256(("%d|" % seed + "|".join(map(str, names))).encode()).digest()
    return int.from_bytes(h[:8], "big")


def stream(seed, *names):
    return random.Random(derive(seed, *names))


def digest(obj):
    import json
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]
