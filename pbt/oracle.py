"""Reference implementations: slow and obvious."""


def occurrences(text, pattern):
    n, m = len(text), len(pattern)
    return [i for i in range(n - m + 1) if text[i : i + m] == pattern]


def first(text, pattern):
    n, m = len(text), len(pattern)
    for i in range(n - m + 1):
        if text[i : i + m] == pattern:
            return i
    return None


def runs(seq, n):
    return {seq[i : i + n] for i in range(len(seq) - n + 1)}


def lcs_length(*seqs):
    """Length of the longest run common to all.  Runs of every shorter
    length are then common as well, so bisect."""
    lo, hi = 0, min(map(len, seqs))
    while lo < hi:
        mid = (lo + hi + 1) // 2
        common = runs(seqs[0], mid)
        for s in seqs[1:]:
            common &= runs(s, mid)
        if common:
            lo = mid
        else:
            hi = mid - 1
    return lo


def varint(v):
    """SQLite 4's variable-length integers, as its documentation describes
    them."""
    if v <= 240:
        return bytes([v])
    if v <= 2287:
        return bytes([(v - 240) // 256 + 241, (v - 240) % 256])
    if v <= 67823:
        return bytes([249, (v - 2288) // 256, (v - 2288) % 256])
    for first_byte, size in ((250, 3), (251, 4), (252, 5), (253, 6), (254, 7), (255, 8)):
        if v < 1 << (8 * size):
            return bytes([first_byte]) + v.to_bytes(size, "big")
    raise OverflowError
