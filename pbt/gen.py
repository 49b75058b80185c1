"""Generators.

Sequences are made as bytes objects whose elements are token numbers; only
the checks turn them into the representation that's given to the code under
test.  All randomness comes from Hypothesis: raw bytes are drawn and decoded
into structured cases by plain functions, which keeps drawing cheap and lets
Hypothesis shrink.
"""

from __future__ import annotations

import hypothesis.strategies as st

# ------------------------------------------------------------ representations

_WIDE = (
    "\n\r\t \u2028\u2029\x85\x0b\x0c\x1c\x1d\u00a0\u200b\ufeffé\u0301ßẞİıſΩω漢字"
    "\U0001f600\U0001f468\u200d\U00010000\U0010ffff\x00\x7f[]\\:(){}*.^$|?+-_/#'\"<>=%&~`@!,;"
)
WIDE = "".join(dict.fromkeys(_WIDE))

# Tokens of many types, no two of them equal.
MIXED = (
    None, "a", b"a", (0,), (), "", b"", 0, 2, -1, -2, 1.5, ("a",), (1,), (0, 1), frozenset(),
    frozenset((0,)), "ab", b"ab", 3, 4, ((),), (None,), ("a", 0), 1 << 64, -(1 << 64), float("inf"),
    Ellipsis, range(3), int, str, 5, 6, 7, 8, 9, (2,), (3,),
)


def letters(seq):
    return "".join(chr(97 + t) if t < 26 else chr(0x41 + t - 26) if t < 52 else chr(0x400 + t) for t in seq)


def wide(seq):
    return "".join(WIDE[t] if t < len(WIDE) else chr(0x3000 + t) for t in seq)


def mixed(seq):
    return tuple(MIXED[t] if t < len(MIXED) else ("t", t) for t in seq)


def numbers(seq):
    """Tokens that are equal, but not of one type."""
    return tuple((t, float(t), bool(t) if t < 2 else complex(t))[i % 3] for i, t in enumerate(seq))


def fresh(seq):
    """Tokens that are equal, but never the same object."""
    return tuple(("t", t) for t in seq)


ENCODERS = {
    "str": letters,
    "wide": wide,
    "bytes": bytes,
    "ints": tuple,
    "mixed": mixed,
    "numbers": numbers,
    "fresh": fresh,
}
REPS = tuple(ENCODERS)


def enc(rep, seq):
    return ENCODERS[rep](seq)


reps = st.sampled_from(REPS)


def raw(lo, hi):
    return st.binary(min_size=lo, max_size=hi)


# A mixture of short and longer raw bytes; Hypothesis alone would make most
# of them short.
def sized(*limits):
    return st.one_of(*(raw(lo, hi) for lo, hi in limits))


def mod(seq, k):
    return bytes(t % k for t in seq)


# ------------------------------------------------------------ edits


def edit(seq, script, k):
    """Edit seq as the raw bytes say: insertions, deletions, replacements,
    and blocks that are duplicated, moved or swapped.  k tokens exist."""
    out = bytearray(seq)
    i = 0
    while i + 3 <= len(script):
        op, at, size = script[i], script[i + 1], script[i + 2]
        i += 3
        at %= len(out) + 1
        n = size % 4 + (size > 200) * (size - 200) // 4
        new = bytes(t % k for t in script[i : i + n % 4])
        op %= 8
        if op <= 1:  # insert
            out[at:at] = new
            i += n % 4
        elif op <= 3:  # delete
            del out[at : at + max(n, 1)]
        elif op == 4:  # replace
            out[at : at + max(n, 1)] = new
            i += n % 4
        elif op == 5:  # duplicate
            out[at:at] = out[at : at + n + 1]
        elif op == 6:  # move a block to the start or to the end
            block = out[at : at + n + 1]
            del out[at : at + n + 1]
            to = 0 if size & 1 else len(out)
            out[to:to] = block
        elif op == 7:  # swap neighbouring blocks
            x, y = out[at : at + n + 1], out[at + n + 1 : at + 2 * n + 2]
            out[at : at + 2 * n + 2] = y + x
    return bytes(out)


def fibonacci(n, zero=b"\0", one=b"\1"):
    x, y = zero, zero + one
    while len(y) < n:
        x, y = y, y + x
    return y[:n]


def thue_morse(n):
    return bytes(bin(i).count("1") & 1 for i in range(n))


def structured(raw1, k):
    """A highly repetitive sequence described by a few bytes."""
    if not raw1:
        return b""
    kind, n = raw1[0] % 5, raw1[1] % 48 if len(raw1) > 1 else 8
    rest = mod(raw1[2:], k) or b"\0"
    if kind == 0:
        s = (rest * (n // len(rest) + 1))[:n]
    elif kind == 1:
        s = fibonacci(n, rest[:1], rest[1:2] or b"\1")
    elif kind == 2:
        s = mod(thue_morse(n), max(k, 1))
    elif kind == 3:  # a^n b a^n
        s = rest[:1] * (n // 2) + rest[1:] + rest[:1] * (n - n // 2)
    else:  # palindrome
        s = rest + rest[::-1]
    return mod(s, k)


def chunked(raw1, raw2, k):
    """Concatenate chunks cut from raw1 in the order given by raw2."""
    base = mod(raw1, k)
    out = b""
    for t in raw2:
        at = (t * 7) % (len(base) + 1)
        out += base[at : at + t % 6]
        if t % 11 == 0:
            out += bytes((t % k,))
    return out


PAIR_KINDS = 8


def _pair(t):
    kind, k, r1, r2, r3 = t
    if kind == 0:
        return mod(r1, k), mod(r2, k)
    if kind in (1, 2):
        a = mod(r1, k)
        return a, edit(a, r2, k)
    if kind == 3:
        a = structured(r1, k)
        return a, edit(a, r2, k)
    if kind == 4:
        return structured(r1, k), structured(r2, k)
    if kind == 5:
        return chunked(r1, r2, k), chunked(r1, r3, k)
    if kind == 6:  # two edits of a common ancestor
        a = mod(r1, k)
        return edit(a, r2, k), edit(a, r3, k)
    a = mod(r1, k)
    return a, a


def pairs(alphabets=(1, 2, 2, 3, 4, 26), limits=((0, 8), (4, 30))):
    size = sized(*limits)
    return st.tuples(
        st.integers(0, PAIR_KINDS - 1), st.sampled_from(alphabets), size, size, size
    ).map(_pair)


def sequences(alphabets=(1, 2, 2, 3, 4, 26), limits=((0, 8), (4, 30))):
    def make(t):
        kind, k, r = t
        return structured(r, k) if kind == 0 else mod(r, k)

    return st.tuples(st.integers(0, 2), st.sampled_from(alphabets), sized(*limits)).map(make)


def _triple(t):
    kind, k, r1, r2, r3 = t
    if kind == 0:
        return mod(r1, k), mod(r2, k), mod(r3, k)
    if kind == 1:
        p = structured(r1, k)
        return p, edit(p, r2, k), edit(p, r3, k)
    if kind == 2:
        return chunked(r1, r2, k), chunked(r1, r3, k), chunked(r1, r2[::-1], k)
    if kind == 3:  # second branch made from the first
        p = mod(r1, k)
        a = edit(p, r2, k)
        return p, a, edit(a, r3, k)
    if kind == 4:  # branches share part of their edits
        p = mod(r1, k)
        c = edit(p, r2[: len(r2) // 2], k)
        return p, edit(c, r2[len(r2) // 2 :], k), edit(c, r3, k)
    p = mod(r1, k)
    return p, edit(p, r2, k), edit(p, r3, k)


def triples(alphabets=(1, 2, 3, 4, 26, 26), limits=((0, 8), (4, 30))):
    size = sized(*limits)
    return st.tuples(
        st.integers(0, 8), st.sampled_from(alphabets), size, size, size
    ).map(_triple)


# ------------------------------------------------------------ longer ones
#
# Some behaviour depends on sizes: of fragments, of numbers, of counters.
# A few bytes describe a sequence of hundreds of tokens, and edits that are
# small or large in proportion to it.


def pseudo_random(n, seed, k):
    x, out = int.from_bytes(seed, "big") + 1, bytearray()
    for _ in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        out.append((x >> 33) % k)
    return bytes(out)


def stretched(kind, k, n, seed):
    """A sequence of n tokens of k."""
    kind %= 6
    unit = mod(seed, k) or b"\0"
    if kind == 0:
        return (unit * (n // len(unit) + 1))[:n]
    if kind == 1:
        return mod(fibonacci(n, unit[:1], unit[1:2] or b"\1"), k)
    if kind == 2:  # paragraphs, some of them repeated
        out = b""
        for i in range(0, n, 24):
            t = seed[i // 24 % len(seed)] if seed else 0
            out += pseudo_random(24, bytes((t % 5,)) if t & 64 else bytes((t, i // 24 % 256)), k)
        return out[:n]
    if kind == 3:  # long runs
        out = bytearray()
        while len(out) < n:
            for t in unit:
                out += bytes((t,)) * (1 + t * 37 % 90)
            out.append(len(out) // 90 % k)
        return bytes(out[:n])
    return pseudo_random(n, seed, k)


def edit_far(seq, script, k):
    """Edits anywhere in a long sequence; most are small."""
    out = bytearray(seq)
    for i in range(0, len(script) - 2, 3):
        op, at, size = script[i : i + 3]
        at = (at * (len(out) + 1) >> 8) + size % 3
        n = size % 5 + 1 if size < 192 else len(out) * (size - 191) // 160
        op %= 7
        if op <= 1:
            out[at:at] = pseudo_random(n, script[i : i + 3], k)
        elif op == 2:
            del out[at : at + n]
        elif op == 3:
            out[at : at + n] = pseudo_random(n // 2 + 1, script[i : i + 3], k)
        elif op == 4:
            out[at:at] = out[at : at + n]
        elif op == 5:
            block = out[at : at + n]
            del out[at : at + n]
            to = len(out) * (size % 4) // 4
            out[to:to] = block
        else:
            out[at : at + 2 * n] = out[at + n : at + 2 * n] + out[at : at + n]
    return bytes(out)


def _long_base(t, longest):
    kind, k, size, seed = t
    # Sizes on both sides of powers of two and of ten.
    n = 40 + size * (longest - 40) // 255
    for edge in (64, 100, 128, 200, 256, 400, 512, 1000, 1024, 2048):
        if abs(n - edge) <= longest // 100:
            n = edge + seed[-1] % 5 - 2 if seed else edge
    return stretched(kind, k, n, seed), k


def long_sequences(longest=600, alphabets=(2, 3, 26, 250)):
    return st.tuples(
        st.integers(0, 5), st.sampled_from(alphabets), st.integers(0, 255), raw(1, 12)
    ).map(lambda t: _long_base(t, longest)[0])


def _long_pair(t, longest):
    base, unrelated, r1, r2 = t
    a, k = _long_base(base, longest)
    if unrelated == 0:
        return a, stretched(r1[0] if r1 else 4, k, max(len(a) - 5, 0), r2)
    if unrelated == 1:
        return edit_far(a, r1, k), edit_far(a, r2, k)
    return a, edit_far(a, r1, k)


def _bases(alphabets):
    return st.tuples(st.integers(0, 5), st.sampled_from(alphabets), st.integers(0, 255), raw(1, 12))


def long_pairs(longest=600, alphabets=(2, 3, 26, 250, 250)):
    return st.tuples(_bases(alphabets), st.integers(0, 5), raw(0, 18), raw(0, 18)).map(
        lambda t: _long_pair(t, longest)
    )


def _long_triple(t, longest):
    base, kind, r1, r2 = t
    p, k = _long_base(base, longest)
    a = edit_far(p, r1, k)
    return p, a, edit_far(a if kind == 0 else p, r2, k)


def long_triples(longest=400, alphabets=(2, 26, 250, 250)):
    return st.tuples(_bases(alphabets), st.integers(0, 5), raw(0, 18), raw(0, 18)).map(
        lambda t: _long_triple(t, longest)
    )


# ------------------------------------------------------------ exhaustive


def all_sequences(k, n):
    """Every sequence of at most n tokens of k, tokens numbered in the order
    of their first occurrence, so one per class under renaming."""
    level = [b""]
    yield b""
    for _ in range(n):
        following = []
        for s in level:
            used = max(s) + 1 if s else 0
            for t in range(min(used + 1, k)):
                following.append(s + bytes((t,)))
        yield from following
        level = following


def every_sequence(k, n):
    """Every sequence of at most n tokens of k."""
    level = [b""]
    yield b""
    for _ in range(n):
        level = [s + bytes((t,)) for s in level for t in range(k)]
        yield from level


def all_pairs(k, n, m=None):
    second = list(every_sequence(k, n if m is None else m))
    for a in all_sequences(k, n):
        for b in second:
            yield a, b
