"""Random memory segments as the package under test represents them"""
import numpy as np

from atrcopy.segments import SegmentData, DefaultSegment, ObjSegment


def segment(rng, origin, data):
    """a segment with these bytes: contiguous, a window, or picked byte by byte out of a bigger array"""
    k = rng.random()
    n = len(data)
    if k < .4:
        raw = SegmentData(np.frombuffer(data, dtype=np.uint8).copy())
    elif k < .7:
        a, b = rng.randint(0, 20), rng.randint(0, 20)
        big = np.frombuffer(rng.randbytes(a) + data + rng.randbytes(b), dtype=np.uint8).copy()
        raw = SegmentData(big)[a:a + n]
    else:
        total = n + rng.randint(0, 50)
        order = rng.sample(range(total), n)
        big = np.frombuffer(rng.randbytes(total), dtype=np.uint8).copy()
        big[order] = np.frombuffer(data, dtype=np.uint8)
        raw = SegmentData(big).get_indexed(order)
    if rng.random() < .5:
        return DefaultSegment(raw, origin, name="seg")
    return ObjSegment(raw, 0, 0, origin, origin + n, name="obj")


def random_layout(rng, nmax=8, maxlen=4000, lo=0, hi=65536, total=None):
    """[(origin, bytes)], overlapping or not, in any order"""
    out = []
    used = 0
    for _ in range(rng.randint(1, nmax)):
        n = rng.choice([1, 2, 3, 255, 256, 257, rng.randint(1, 60), rng.randint(1, maxlen)])
        if maxlen >= 4000 and rng.random() < .02:
            n = rng.choice([rng.randint(8192, 50000), 32768, 65535, 65536])
            n = min(n, hi - lo)
        else:
            n = min(n, maxlen, hi - lo)
        if total is not None:
            n = min(n, total - used)
            if n <= 0:
                break
        k = rng.random()
        if out and k < .15:
            org = out[-1][0] + len(out[-1][1])       # right behind
        elif out and k < .25:
            org = out[-1][0] + rng.randint(-n, len(out[-1][1]))   # overlapping
        elif k < .3:
            org = hi - n
        elif k < .35:
            org = lo
        else:
            org = rng.randint(lo, hi - n)
        org = max(lo, min(org, hi - n))
        out.append((org, rng.randbytes(n)))
        used += n
    return out


def snapshot(segments):
    return [(id(s), s.origin, len(s), bytes(s.data.tobytes()), s.style.tobytes(), sorted(s.get_sorted_comments()) if hasattr(s, "get_sorted_comments") else None) for s in segments]
