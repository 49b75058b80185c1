"""Thousands to tens of thousands of tokens.

Some code behaves differently beyond a size: of numbers, buffers, counters.
Cases here are short descriptions that are expanded by a seeded generator, so
they print and shrink well; the oracles are made for large inputs.  Sequences
are strings whose characters stand for tokens."""

import random
import re

import hypothesis.strategies as st

SIZES = (1100, 2100, 2600, 4200, 5100, 6500, 8300, 10100, 12500, 16500, 20200, 33000, 50100, 66000)
LARGEST = 101000


def char(i):
    """Code points without surrogates; the first 200 are a byte each."""
    return chr(i + 0x21) if i < 200 else chr(i + 0x100) if i < 0xD000 else chr(i + 0x2000)


REPS = {
    "str": lambda s: s,
    "bytes": lambda s: s.encode("latin-1"),  # up to 200 tokens
    "ints": lambda s: tuple(map(ord, s)),
    "fresh": lambda s: tuple(("t", ord(c)) for c in s),
}


def enc(rep, *texts):
    if rep == "bytes" and max(max(t, default="!") for t in texts) > "\xff":
        rep = "ints"
    return [REPS[rep](t) for t in texts]


def base(n, k, kind, seed):
    r = random.Random(seed)
    k = min(k, n)
    if kind == 0:
        return "".join(char(r.randrange(k)) for _ in range(n))
    if kind == 1:  # paragraphs, many of them repeated
        pool = ["".join(char(r.randrange(k)) for _ in range(r.randrange(1, 90))) for _ in range(20)]
        out = []
        size = 0
        while size < n:
            out.append(r.choice(pool) if r.random() < 0.6 else "".join(char(r.randrange(k)) for _ in range(30)))
            size += len(out[-1])
        return "".join(out)[:n]
    if kind == 2:  # periodic but for some tokens
        unit = [char(r.randrange(k)) for _ in range(r.choice((1, 2, 3, 7, 64, 100, 256, 1000)))]
        out = (unit * (n // len(unit) + 1))[:n]
        for _ in range(3 + n // 2000):
            out[r.randrange(n)] = char(r.randrange(k + 1))
        return "".join(out)
    if kind == 3:  # long runs
        out = []
        size = 0
        while size < n:
            out.append(char(r.randrange(k)) * r.randrange(1, 400))
            size += len(out[-1])
        return "".join(out)[:n]
    return "".join(map(char, range(n)))  # no token twice


def scattered(items, count, r, new):
    """A list with many changes of one or two items."""
    places = set(r.sample(range(len(items)), min(count, len(items) // 3)))
    out = []
    for i, x in enumerate(items):
        if i not in places:
            out.append(x)
        elif (kind := r.randrange(4)) < 3:
            out.extend(([new()], [new(), x], [new(), new()])[kind])
    return out


def edited(s, edits, k, seed):
    r = random.Random(seed)
    for op, at, size in edits:
        at = (len(s) + 1) * at >> 12
        large = size >= 48
        n = (len(s) * (size - 47) // 40) if large else size % 12 + 1 if size < 36 else 60 * (size - 35)
        # Large pieces of new text would be slow to compare.
        m = min(n, 300)
        new = "".join(char(r.randrange(k + 3)) for _ in range(m))
        if op == 7:
            s = "".join(scattered(list(s), 4 << size % 9, r, lambda: char(r.randrange(k + 3))))
            continue
        if op <= 1:
            s = s[:at] + new + s[at:]
        elif op == 2:
            s = s[:at] + s[at + n :]
        elif op == 3:
            s = s[:at] + new + s[at + m :]
        elif op == 4:
            s = s[: at + n] + s[at:]
        elif op == 5:
            block, s = s[at : at + n], s[:at] + s[at + n :]
            to = r.randrange(len(s) + 1)
            s = s[:to] + block + s[to:]
        else:
            s = s[:at] + s[at + n : at + 2 * n] + s[at : at + n] + s[at + 2 * n :]
    return s


def _sizes(most):
    sizes = [n for n in SIZES if n <= most]
    return st.tuples(st.sampled_from(sizes), st.integers(0, 40)).map(sum)


_edits = st.lists(st.tuples(st.integers(0, 7), st.integers(0, 4095), st.integers(0, 63)), max_size=5)


def specs(count, most=66000, kinds=(0, 0, 1, 2, 3, 4), alphabets=(2, 3, 26, 26, 200, 50000)):
    """Descriptions of related sequences: edits of the first one."""
    return st.tuples(
        _sizes(most), st.sampled_from(alphabets), st.sampled_from(kinds), st.integers(0, 1 << 16),
        st.tuples(*(_edits for _ in range(count - 1))),
    )


def expand(spec):
    n, k, kind, seed, scripts = spec
    first = base(n, k, kind, seed)
    if kind == 4:
        k = n
    return [first] + [edited(first, s, k, seed + 1 + i) for i, s in enumerate(scripts)]


reps = st.sampled_from(tuple(REPS))


# ------------------------------------------------------------ rivals


def rival_specs(sizes=(20, 60, 140, 300, 600, 1100, 2100, 4300)):
    """Descriptions of branches that rewrite the same part of their parent."""
    return st.tuples(
        st.sampled_from(sizes), st.sampled_from((2, 5, 26, 99)), st.integers(0, 3), st.integers(0, 40), st.integers(0, 1 << 16)
    )


def rivals(spec):
    """A parent, and two branches that replace the same large part of it by
    text that's alike, or of which one does and the other has many small edits
    there, with tokens of that text.  The parent has none of the new tokens."""
    n, k, style, size, seed = spec
    if style >= 2 or seed % 4 == 3:
        n = min(n, 600)
    if n > 300:
        k = 99  # Few tokens are slow to compare.
    r = random.Random(seed)
    old = lambda n: "".join(char(100 + r.randrange(100)) for _ in range(n))
    new = lambda: char(r.randrange(k))
    head, region, tail = old(size), old(n if style else r.randrange(n + 1)), old(size)
    first = base(n, k, seed % 4, seed)
    if style < 2:
        second = "".join(scattered(list(first), max(1, n // r.choice((3, 10, 60))), r, new))
    else:
        step = r.choice((2, 3, 7, 20))
        second = ""
        for i in range(0, len(region), step):
            piece = region[i : i + step]
            at = r.randrange(len(first))
            second += piece[: len(piece) - (style == 3)] + first[at : at + r.randrange(1, 4)]
    branches = [head + first + tail, head + second + tail]
    if r.random() < 0.5:
        branches.reverse()
    return head + region + tail, *branches


# ------------------------------------------------------------ distinct tokens


def unique_specs(most=66000):
    """A parent of distinct tokens; edits of the branches, some of them near
    each other."""
    edit = st.tuples(st.integers(0, 1), st.integers(-3, 12), st.integers(0, 8), st.integers(0, 4))
    return st.tuples(
        _sizes(most),
        st.lists(st.tuples(st.integers(0, 4095), st.lists(edit, min_size=1, max_size=3)), min_size=1, max_size=8),
        st.one_of(st.just(()), st.tuples(st.sampled_from((60, 260, 520, 1030)), st.integers(0, 1 << 16))),
    )


def unique_branches(spec):
    """Tuples of integers."""
    n, places, many = spec
    places = list(places)
    if many:
        r = random.Random(many[1])
        for _ in range(min(many[0], n // 10)):
            edits = [(r.randrange(2), r.randrange(-3, 13), r.choice((0, 1, 2, 7)), r.randrange(5)) for _ in range(r.choice((1, 1, 2)))]
            places.append((r.randrange(1 << 16) / 16, edits))
    fresh = n
    deleted, inserted = [set(), set()], [{}, {}]
    for place, edits in places:
        start = int(place * (n + 1)) >> 12
        for which, offset, size, new in edits:
            at = min(max(start + offset, 0), n)
            # A few edits are large.
            size = size if size < 8 else min(300, n // 10)
            deleted[which].update(range(at, min(at + size, n)))
            inserted[which][at] = inserted[which].get(at, ()) + tuple(range(fresh, fresh + new))
            fresh += new
    branches = []
    for which in (0, 1):
        out = []
        for i in range(n + 1):
            out.extend(inserted[which].get(i, ()))
            if i < n and i not in deleted[which]:
                out.append(i)
        branches.append(tuple(out))
    return tuple(range(n)), *branches


# ------------------------------------------------------------ oracles

_P = (1 << 61) - 1
_B = 0x1234567_89ABCDF


def _prefix(seq):
    out = [0]
    h = 0
    for t in seq:
        h = (h * _B + t + 1) % _P
        out.append(h)
    return out


def _run_hashes(prefix, n):
    power = pow(_B, n, _P)
    return {(y - x * power) % _P for x, y in zip(prefix, prefix[n:])}


def lcs_length(*seqs):
    """Length of the longest run common to all, by bisection over hashes of
    runs (modulo 2**61 - 1, so that a chance agreement is out of the
    question)."""
    numbers = {}
    prefixes = [_prefix([numbers.setdefault(t, len(numbers)) for t in s]) for s in seqs]
    lo, hi = 0, min(map(len, seqs))
    while lo < hi:
        mid = (lo + hi + 1) // 2
        common = _run_hashes(prefixes[0], mid)
        for p in prefixes[1:]:
            common &= _run_hashes(p, mid)
        if common:
            lo = mid
        else:
            hi = mid - 1
    return lo


def occurrences(text, pattern):
    out = []
    at = text.find(pattern)
    while at >= 0:
        out.append(at)
        at = text.find(pattern, at + 1)
    return out


# ------------------------------------------------------------ texts


def _line(r, i, style):
    if style == 0:
        return f"line {i}\n"
    if style == 1:
        return r.choice(("{\n", "}\n", "\n", "    return x\n", f"    x{i % 50} = {i};\n", f"// {r.randrange(1000)}\n"))
    if style == 2:
        return _words(r, r.randrange(12)) + "\n"
    if style == 4:
        return _words(r, r.choice((3, 100, 400, 1100))) + "\n"
    return r.choice(("a\n", "b\n", "\n", "ab\n", "  \n"))


def _words(r, n):
    return "".join(r.choice(WORDS) for _ in range(n))


WORDS = ("foo ", "bar ", "é ", "漢字 ", "x", "(", ")", ", ")
_line_edits = st.lists(st.tuples(st.integers(0, 7), st.integers(0, 4095), st.integers(0, 7)), max_size=5)


def text_specs(count, sizes=(120, 260, 520, 1030, 1500, 2100, 4200)):
    """Descriptions of texts of hundreds to thousands of lines."""
    return st.tuples(
        st.sampled_from(sizes), st.sampled_from((0, 1, 2, 3, 4, 4)), st.integers(0, 1 << 16), st.booleans(),
        st.tuples(*(_line_edits for _ in range(count - 1))),
    )


def expand_texts(spec):
    n, style, seed, newline, scripts = spec
    r = random.Random(seed)
    if style == 4:  # a few long lines
        n = n // 200 + 1
    first = [_line(r, i, style) for i in range(n)]
    if not newline:
        first[-1] = first[-1][:-1]
    result = ["".join(first)]
    for s in scripts:
        lines = list(first)
        for op, at, size in s:
            at = (len(lines) + 1) * at >> 12
            if op == 6:
                lines = scattered(lines, 4 << size, r, lambda: _line(r, 2 * n + r.randrange(n), style))
            elif lines and op == 7:  # many places of a line
                at = min(at, len(lines) - 1)
                words = re.findall(r"\w+\s*|.\s?", lines[at][:-1])
                lines[at] = "".join(scattered(words, 4 << size, r, lambda: r.choice(("new ", "y", "[", "foo ")))) + lines[at][-1:]
            elif op == 0:  # new lines
                lines[at:at] = [_line(r, n + at + j, style) for j in range(size + 1)]
            elif op == 1:
                del lines[at : at + size + 1]
            elif op == 2:
                block = lines[at : at + size * 8 + 1]
                del lines[at : at + size * 8 + 1]
                to = r.randrange(len(lines) + 1)
                lines[to:to] = block
            elif lines and op == 3:  # within a line
                at = min(at, len(lines) - 1)
                column = r.randrange(len(lines[at]) + 1)
                lines[at] = lines[at][:column] + "new"[: size % 4] + lines[at][column + size // 4 :]
            elif lines and op == 4:  # a long line
                at = min(at, len(lines) - 1)
                words = 40 * (size + 1) if size < 6 or style == 4 else r.choice((700, 2500, 3500, 13500))
                new = "long " * words
                # Whitespace at its end, too.
                lines[at] = new + "\n" + lines[at] if r.random() < 0.5 else new + lines[at]
            else:
                lines[at : at + 2 * size + 1] = [_line(r, 3 * n + at + j, style) for j in range(size)]
        result.append("".join(lines))
    return result
