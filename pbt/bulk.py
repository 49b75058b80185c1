"""Cases from a plain pseudo-random generator, for campaigns of many small
cases: Hypothesis takes longer to generate such a case than the code under
test to handle it.  Each function takes a random.Random."""

from pbt import gen

_SIZES = (2, 4, 6, 8, 12, 12, 16, 16, 24, 24, 40)
_ALPHABETS = (1, 2, 2, 2, 3, 3, 3, 4, 5, 8, 26)


def sequence(r, k=None, n=None):
    k = k or r.choice(_ALPHABETS)
    n = r.choice(_SIZES) if n is None else n
    n = r.randrange(n + 1)
    if r.random() < 0.15:
        # A repeated unit with a few changes.
        unit = bytes(r.choices(range(k), k=r.randrange(1, 5)))
        out = bytearray((unit * (n // len(unit) + 1))[:n])
        for _ in range(r.randrange(3)):
            if out:
                out[r.randrange(len(out))] = r.randrange(k)
        return bytes(out)
    return bytes(r.choices(range(k), k=n))


def edited(r, s, k, edits=None):
    """The sequence with a few parts deleted, inserted, replaced, moved,
    copied or reversed."""
    for _ in range(r.choice((1, 1, 2, 3, 4)) if edits is None else edits):
        i = r.randrange(len(s) + 1)
        j = min(len(s), i + r.choice((0, 1, 1, 2, 3, 5)))
        new = bytes(r.choices(range(k), k=r.choice((1, 1, 2, 3, 5))))
        what = r.randrange(8)
        if what < 2:
            s = s[:i] + s[j:]
        elif what < 4:
            s = s[:i] + new + s[i:]
        elif what < 6:
            s = s[:i] + new + s[j:]
        else:
            part, rest = s[i:j], s[:i] + s[j:]
            if what == 6:
                at = r.randrange(len(rest) + 1)
                s = rest[:at] + part + rest[at:]
            else:
                at = r.randrange(len(s) + 1)
                s = s[:at] + part[:: r.choice((1, -1))] + s[at:]
    return s


def pair(r):
    k = r.choice(_ALPHABETS)
    x = sequence(r, k)
    if r.random() < 0.4:
        return x, sequence(r, k)
    return x, edited(r, x, k)


def triple(r):
    k = r.choice(_ALPHABETS)
    p = sequence(r, k)
    how = r.randrange(10)
    if how < 3:
        return p, sequence(r, k), sequence(r, k)
    if how < 6:
        return p, edited(r, p, k), edited(r, p, k)
    if how < 9:
        # They share edits.
        shared = edited(r, p, k)
        return p, edited(r, shared, k, r.randrange(3)), edited(r, shared, k, r.randrange(3))
    return p, edited(r, p, k), sequence(r, k)


def several(r):
    """One to six sequences that have something in common, or nothing."""
    k = r.choice(_ALPHABETS)
    base = sequence(r, k)
    how = r.randrange(3)
    found = []
    for _ in range(r.choice((1, 2, 3, 3, 3, 4, 4, 5, 6))):
        if how == 0:
            found.append(edited(r, base, k))
        elif how == 1:
            found.append(sequence(r, k))
        else:
            found.append(sequence(r, k) + base + sequence(r, k))
    return tuple(found)


def searched(r):
    """A text, and patterns cut from it, altered or unrelated."""
    k = r.choice(_ALPHABETS)
    text = sequence(r, k)
    patterns = [sequence(r, k + 1, 6)]
    for _ in range(r.choice((1, 3, 6))):
        i = r.randrange(len(text) + 1)
        part = text[i : i + r.choice((1, 1, 2, 3, 5, 9, 40))]
        patterns.append(part if r.random() < 0.5 else edited(r, part, k, 1))
    return text, tuple(patterns)


TOKENS = ("\n", "a", "b", " ", "\n\n", "ab", "+", "\n ")


def text_of(s):
    """Text with many line ends."""
    return "".join(TOKENS[t % len(TOKENS)] for t in s)


def represented(source):
    """With one of the token representations."""
    return lambda r: (r.choice(gen.REPS), source(r))


def unique(r, share=True):
    """A parent of distinct tokens; branches delete any of them and insert
    new tokens in any gaps.  What both insert in one gap may be equal in
    part, from its start, to its end or in between."""
    n = r.choice((0, 1, 2, 3, 4, 6, 8, 12, 16))
    fresh = iter(range(n, 256))
    density = r.choice((0.1, 0.3, 0.6))
    alike = r.choice((0, 0.2, 0.5)) if share else 0
    take = lambda: bytes(t for t in (next(fresh, None) for _ in range(r.choice((1, 1, 2, 3, 6)))) if t is not None)
    branches = bytearray(), bytearray()
    for i in range(n + 1):
        new = [take() if r.random() < density / 2 else b"" for _ in range(2)]
        keep = [r.random() >= density for _ in range(2)]
        if r.random() < alike:
            common = take()
            how = r.randrange(6)
            if how == 0:
                new = [common, common]
            elif how == 1:
                new = [common, common + take()]
            elif how == 2:
                new = [take() + common, common]
            elif how == 3:
                new = [common + new[0], common + new[1]]
            elif how == 4:
                new = [new[0] + common, new[1] + common]
            else:
                new = [new[0] + common, common + take()]
            if r.random() < 0.5:
                new.reverse()
            if r.random() < 0.6:
                keep[1] = keep[0]
        for which, branch in enumerate(branches):
            branch += new[which]
            if i < n and keep[which]:
                branch.append(i)
    return bytes(range(n)), bytes(branches[0]), bytes(branches[1])


# ------------------------------------------------------------ minimising


def _replace(case, path, value):
    if not path:
        return value
    i = path[0]
    return case[:i] + (_replace(case[i], path[1:], value),) + case[i + 1 :]


def _leaves(case, path=()):
    if isinstance(case, tuple):
        for i, part in enumerate(case):
            yield from _leaves(part, path + (i,))
    elif isinstance(case, bytes):
        yield path, case


def smaller(case):
    """Cases with less in one of their sequences, the smallest first; numbers
    and names in a case stay."""
    for path, value in _leaves(case):
        size = len(value)
        while size:
            for i in range(0, len(value) - size + 1, max(size // 2, 1)):
                yield _replace(case, path, value[:i] + value[i + size :])
            size //= 2
    # The same tokens everywhere, for those that occur.
    used = sorted({t for _, value in _leaves(case) for t in value})
    for new, old in enumerate(used):
        if new < old:
            swap = bytes.maketrans(bytes((old,)), bytes((new,)))
            for_all = case
            for path, value in _leaves(case):
                for_all = _replace(for_all, path, value.translate(swap))
            yield for_all
            break
