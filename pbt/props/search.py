"""C01 to C05: searching and longest common substrings."""

import array
import gc
import math
import sys
import time
import tracemalloc
from collections import UserList, UserString, deque

import hypothesis.strategies as st

import gaspra
from gaspra import suffix_automaton as sa

from pbt import bulk, gen, giant, oracle
from pbt.core import Violation, prop, require
from pbt.gen import enc

# ------------------------------------------------------------------ C01

C01 = prop(
    "C01",
    "A case is a text (random over 1 to 26 tokens, periodic, Fibonacci, palindromic...) with patterns "
    "cut from it, mutated or unrelated, or every text and pattern over small alphabets up to a length; "
    "tokens are given as str, bytes, ints or tokens of mixed types. Non-trivial: some pattern occurs at "
    "least twice in the text, or doesn't occur although all of its tokens do. Oracle: scan of all positions.",
)


def patterns_of(text, script, k):
    """Patterns that are related to the text."""
    found = [b""]
    for i in range(0, len(script) - 2, 3):
        kind, at, n = script[i : i + 3]
        at %= len(text) + 1
        cut = text[at : at + n % 12]
        if kind % 5 == 3 and cut:
            j = n % len(cut)
            cut = cut[:j] + bytes((kind % k,)) + cut[j + 1 :]
        elif kind % 5 == 4:
            cut = cut + text[: n % 4]
        elif kind % 5 == 2:
            cut = text[at : at + 1] * (n % 6)
        found.append(cut)
    found.append(text)
    found.append(text + text[:1])
    return found


def check_search(text, patterns, note):
    root = sa.build(text)
    tokens = set(text)
    # Twice, because searching mustn't change the index.
    for _ in range(2):
        for p in patterns:
            expected = oracle.occurrences(text, p)
            result = sa.find_substring_all(root, p)
            got = list(result)
            require(got == expected, "wrong positions from a reused index", text, p, got, expected)
            if isinstance(result, list):
                result.clear()  # It belongs to the caller.
            one = sa.find_substring(root, p)
            want = expected[0] if expected else None
            require(one == want and type(one) is type(want), "wrong first occurrence", text, p, one, want)
    for p in patterns:
        expected = oracle.occurrences(text, p)
        got = list(gaspra.find_substring(text, p))
        require(got == expected, "wrong positions", text, p, got, expected)
        note.nontrivial(len(p) > 0 and (len(expected) > 1 or (not expected and tokens >= set(p))))
        note("found" if expected else "absent")


@C01.random(
    "search",
    lambda tier: st.tuples(
        gen.reps,
        gen.sequences(limits=((0, 8), (4, 40), (20, 60))),
        gen.raw(0, 30),
        gen.raw(0, 5),
    ),
    quick=14000,
)
def _(case, note):
    rep, text, script, other = case
    k = max(text, default=0) + 2
    patterns = patterns_of(text, script, k) + [gen.mod(other, k)]
    check_search(enc(rep, text), [enc(rep, p) for p in patterns], note)


@C01.exhaustive(
    "small",
    lambda tier: ((2, s) for s in gen.all_sequences(2, 9 if tier == "quick" else 12)),
)
def _(case, note):
    k, text = case
    patterns = list(gen.every_sequence(k, 5))
    check_search(gen.letters(text), [gen.letters(p) for p in patterns], note)


@C01.random(
    "long",
    lambda tier: st.tuples(gen.reps, st.integers(0, 5), gen.raw(2, 8), gen.raw(0, 30)),
    quick=400,
)
def _(case, note):
    rep, kind, seed, script = case
    n = 300 + seed[0] * 4
    if kind == 0:
        text = gen.fibonacci(n)
    elif kind == 1:
        text = gen.thue_morse(n)
    elif kind == 2:
        text = b"\0" * n
    elif kind == 3:
        text = gen.mod(seed, 3) * (n // len(seed))
    else:  # pseudo-random, from the drawn bytes alone
        x, out = int.from_bytes(seed, "big"), bytearray()
        for _ in range(n):
            x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            out.append((x >> 33) % (2 + kind))
        text = bytes(out)
    text = gen.edit(text, script[:9], 3)
    long_cuts = [text[i * 3 : i * 3 + s] for i, s in enumerate(script)]
    check_search(enc(rep, text), [enc(rep, p) for p in long_cuts[:8]], note)


_cuts = st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4095), st.integers(0, 63)), min_size=2, max_size=8)


def giant_patterns(text, cuts, seed):
    """Runs of the text, and what's nearly one."""
    out = [text[:1], text, text[1:], text + text[:1]]
    for kind, at, size in cuts:
        at = len(text) * at >> 12
        n = size + 1 if size < 40 else len(text) * (size - 39) // 30
        cut = text[at : at + n]
        if kind == 1:
            cut = cut + text[seed % len(text)]
        elif kind == 2:
            cut = cut[: n // 2] + text[seed % len(text)] + cut[n // 2 + 1 :]
        elif kind == 3:
            cut = text[at : at + 1] * (size % 6)
        elif kind == 4:
            cut = text[at : at + size % 4 + 1]
        out.append(cut)
    return out


@C01.random("giant", lambda tier: st.tuples(giant.reps, giant.specs(1), _cuts), quick=48, cpu_s=300)
def _(case, note):
    rep, spec, cuts = case
    (text,) = giant.expand(spec)
    patterns = giant_patterns(text, cuts, spec[3])
    x, *xs = giant.enc(rep, text, *patterns)
    root = sa.build(x)
    for p, q in zip(patterns, xs):
        expected = giant.occurrences(text, p)
        got = list(sa.find_substring_all(root, q))
        require(got == expected, "wrong positions", case, len(p), p[:80], got[:20], expected[:20])
        one = sa.find_substring(root, q)
        require(one == (expected[0] if expected else None), "wrong first occurrence", case, len(p), p[:80], one, expected[:1])
        note("found" if expected else "absent")
        note.nontrivial(len(expected) > 1)
    # With an index of its own.
    got = list(gaspra.find_substring(x, xs[-1]))
    require(got == expected, "wrong positions", case, len(p), p[:80], got[:20], expected[:20])


# ------------------------------------------------------------------ C02

C02 = prop(
    "C02",
    "A case is a pair of sequences (unrelated, edited, periodic, built from shared chunks, two edits of an "
    "ancestor, identical), or every pair over small alphabets up to a length, in one of five token "
    "representations. Non-trivial: both have at least two tokens and the longest common run is at least 1 "
    "and shorter than both. Oracle: maximal length by bisection over sets of all runs.",
)


def check_lcs(a, b, note):
    for x, y in ((a, b), (b, a)):
        pa, pb, length = gaspra.find_lcs(x, y)
        require(all(type(v) is int for v in (pa, pb, length)), "not integers", x, y, (pa, pb, length))
        require(
            0 <= length and 0 <= pa <= len(x) - length and 0 <= pb <= len(y) - length,
            "positions outside of the sequences", x, y, (pa, pb, length),
        )
        run = x[pa : pa + length]
        require(run == y[pb : pb + length], "runs differ", x, y, (pa, pb, length))
        best = oracle.lcs_length(x, y)
        require(length == best, f"length {length}, but {best} is possible", x, y)
        require(
            oracle.first(x, run) == pa and oracle.first(y, run) == pb,
            "not the first occurrences", x, y, (pa, pb, length),
        )
    note.nontrivial(min(len(a), len(b)) >= 2 and 1 <= length < min(len(a), len(b)))
    note(f"length {min(length, 8)}")
    # One index, many searches.
    root = sa.build(a)
    first = tuple(sa.find_lcs(root, b))
    sa.find_lcs(root, a)
    require(tuple(sa.find_lcs(root, b)) == first == tuple(gaspra.find_lcs(a, b)), "a reused index gave another answer", a, b)


@C02.random(
    "pairs",
    lambda tier: st.tuples(gen.reps, gen.pairs(limits=((0, 8), (4, 30), (15, 50)))),
    quick=24000,
)
def _(case, note):
    rep, (a, b) = case
    check_lcs(enc(rep, a), enc(rep, b), note)


@C02.random("long", lambda tier: st.tuples(gen.reps, gen.long_pairs(600)), quick=480)
def _(case, note):
    rep, (a, b) = case
    check_lcs(enc(rep, a), enc(rep, b), note)


@C02.exhaustive("small", lambda tier: gen.all_pairs(2, 6 if tier == "quick" else 8))
def _(case, note):
    check_lcs(gen.letters(case[0]), gen.letters(case[1]), note)


@C02.exhaustive("small3", lambda tier: gen.all_pairs(3, 4 if tier == "quick" else 6, 4 if tier == "quick" else 5))
def _(case, note):
    check_lcs(gen.letters(case[0]), gen.letters(case[1]), note)


@C02.random("giant", lambda tier: st.tuples(giant.reps, giant.specs(2)), quick=48, cpu_s=300)
def _(case, note):
    rep, spec = case
    a, b = giant.expand(spec)
    best = giant.lcs_length(a, b)
    for x, y in ((a, b), (b, a)):
        pa, pb, length = gaspra.find_lcs(*giant.enc(rep, x, y))
        require(length == best, f"length {length}, but {best} is right", case)
        run = x[pa : pa + length]
        require(len(run) == length and run == y[pb : pb + length], "runs differ", case, (pa, pb, length))
        require(x.find(run) == pa and y.find(run) == pb, "not the first occurrences", case, (pa, pb, length))
    note.nontrivial(0 < best < min(len(a), len(b)))


# ------------------------------------------------------------------ C03

C03 = prop(
    "C03",
    "A case is a list of 1 to 6 sequences (edits of an ancestor, made of shared chunks, unrelated, empty), "
    "or every list of up to three sequences over two tokens up to a length; representations include integers that equal "
    "positions of sequences and tuples of one integer. Non-trivial: at least 2 sequences, the longest common run is "
    "at least 1 and shorter than the shortest sequence. Oracle: maximal length by bisection over sets of all runs.",
)

EXTRA = {
    # Tokens that resemble indices of sequences, in several guises.
    "singles": lambda seq: tuple((t,) for t in seq),
    "signed": lambda seq: tuple(t - 2 for t in seq),
}


def enc_many(rep, seq):
    return EXTRA[rep](seq) if rep in EXTRA else enc(rep, seq)


def check_multiple(seqs, note):
    positions, length = gaspra.find_lcs_multiple(*seqs)
    require(type(length) is int and length >= 0, "no length", seqs, (positions, length))
    require(len(positions) == len(seqs), "not a position per sequence", seqs, (positions, length))
    best = oracle.lcs_length(*seqs)
    require(length == best, f"length {length}, but the longest is {best}", seqs)
    run = seqs[0][positions[0] : positions[0] + length]
    for s, p in zip(seqs, positions):
        require(type(p) is int and 0 <= p <= len(s) - length, "position outside", seqs, (positions, length))
        require(s[p : p + length] == run, "runs differ", seqs, (positions, length))
        require(oracle.first(s, run) == p, "not the first occurrence", seqs, (positions, length))
    note.nontrivial(len(seqs) > 1 and 1 <= length < min(map(len, seqs)))
    note(f"{len(seqs)} sequences")


def _many(t):
    rep, kind, k, base, scripts = t
    base = gen.structured(base, k) if kind == 0 else gen.mod(base, k)
    if kind <= 2:
        seqs = tuple(gen.edit(base, s, k) for s in scripts)
    elif kind == 3:
        seqs = tuple(gen.mod(s, k) for s in scripts)
    elif kind == 4:
        seqs = tuple(gen.chunked(base, s, k) for s in scripts)
    else:
        seqs = tuple(gen.mod(s, k) + base + gen.mod(s[::-1], k) for s in scripts)
    return rep, seqs


@C03.random(
    "lists",
    lambda tier: st.tuples(
        st.sampled_from(gen.REPS + tuple(EXTRA)),
        st.integers(0, 5),
        st.sampled_from((1, 2, 3, 4, 26)),
        gen.sized((0, 6), (4, 20)),
        st.lists(gen.sized((0, 6), (3, 15)), min_size=1, max_size=6),
    ).map(_many),
    quick=16000,
)
def _(case, note):
    rep, seqs = case
    check_multiple(tuple(enc_many(rep, s) for s in seqs), note)


@C03.random(
    "long",
    lambda tier: st.tuples(st.sampled_from(gen.REPS + tuple(EXTRA)), gen.long_triples(300), gen.raw(0, 9)),
    quick=480,
)
def _(case, note):
    rep, seqs, script = case
    if script:
        seqs += (gen.edit_far(seqs[-1], script, max(seqs[0], default=0) + 1),)
    check_multiple(tuple(enc_many(rep, s) for s in seqs), note)


def small_lists(tier):
    n = 3 if tier == "quick" else 4
    every = list(gen.every_sequence(2, n))
    for a in gen.all_sequences(2, n + 1):
        yield (a,)
        for b in every:
            yield (a, b)
            for c in every:
                yield (a, b, c)


@C03.exhaustive("small", small_lists)
def _(case, note):
    check_multiple(tuple(tuple(s) for s in case), note)


@C03.random(
    "many-sequences",
    lambda tier: st.tuples(st.integers(5, 300), gen.raw(1, 6), gen.raw(0, 12)),
    quick=240,
)
def _(case, note):
    count, core, noise = case
    seqs = tuple(
        tuple(gen.mod(noise, 7)[i % (len(noise) + 1) :]) + tuple(t % 5 for t in core) + (i + 2,)
        for i in range(count)
    )
    check_multiple(seqs, note)


def check_giant_list(seqs, xs, case, note):
    positions, length = gaspra.find_lcs_multiple(*xs)
    best = giant.lcs_length(*seqs)
    require(length == best, f"length {length}, but {best} is right", case)
    require(len(positions) == len(seqs), "not a position per sequence", case, positions[:50])
    run = seqs[0][positions[0] : positions[0] + length]
    for i, (s, p) in enumerate(zip(seqs, positions)):
        require(len(run) == length and s.find(run) == p, f"not the first occurrence in sequence {i}", case, p, s.find(run), length)
    note.nontrivial(0 < best < min(map(len, seqs)))


@C03.random("giant", lambda tier: st.tuples(giant.reps, giant.specs(3, 20200)), quick=32, cpu_s=300)
def _(case, note):
    rep, spec = case
    seqs = giant.expand(spec)
    check_giant_list(seqs, giant.enc(rep, *seqs), case, note)


@C03.random("very-many", lambda tier: st.tuples(giant.reps, st.integers(260, 1500), st.integers(0, 1 << 16), st.integers(1, 30)), quick=32, cpu_s=300)
def _(case, note):
    """Sequences with a run in common, in different places."""
    rep, count, seed, n = case
    core = giant.base(n, 26, 0, seed)
    seqs = []
    for i in range(count):
        around = giant.base(1 + (seed + i) % 7, 30, 0, seed + i)
        if seed % 2:  # what's next to the run is different in each sequence
            around = "".join(giant.char(40 + 7 * i + j) for j in range(len(around)))
        seqs.append(around[: i % 3] + core + around[i % 3 :] + (core if i % 5 == 0 else ""))
    check_giant_list(seqs, giant.enc(rep, *seqs), case, note)


@C03.exhaustive("none", lambda tier: [()], shards=1)
def _(case, note):
    require(gaspra.find_lcs_multiple() == ((), None), "no sequences must give ((), None)", gaspra.find_lcs_multiple())


# ------------------------------------------------------------------ C04

C04 = prop(
    "C04",
    "A case is a text, in one of five representations, given as a sequence or as a one-shot iterator. All of its "
    "runs are looked up, as are all one-token extensions and alterations of its runs. Non-trivial: a text of at least 3 "
    "tokens in which some token recurs. Oracle: sets of all runs and suffixes.",
)


def check_index(text, iterated, note, alphabet):
    if iterated:
        root = sa.build(iter(text), empty=text[0:0])
    else:
        root = sa.build(text)
    n = len(text)
    suffixes = list(sa.all_suffixes(root))
    expected = [text[i:] for i in range(n + 1)]
    require(len(suffixes) == len(expected), "not every suffix exactly once", text, suffixes)
    require(set(suffixes) == set(expected), "wrong suffixes", text, suffixes)
    require(all(type(s) is type(text) for s in suffixes), "suffixes of another type", text, suffixes)
    real = set()
    for i in range(n + 1):
        for j in range(i, n + 1):
            real.add(text[i:j])
    candidates = set(real)
    for run in real:
        if len(run) <= 6 or len(run) >= n - 1:
            for t in alphabet:
                candidates.add(run + t)
                candidates.add(t + run)
                candidates.add(run[:-1] + t)
    for c in candidates:
        found = sa.find_substring(root, c)
        require((found is not None) == (c in real), "recognised wrongly", text, c, found)
        if found is not None:
            require(oracle.first(text, c) == found, "not the first occurrence", text, c, found)
    # What can be left out of an index isn't needed for anything else.
    bare = sa.build(iter(text) if iterated else text, reverse_links=False, mark_terminals=False)
    linked = sa.build(text, mark_terminals=False)
    marked = sa.build(text, reverse_links=False)
    suffixes = list(sa.all_suffixes(marked)) if n else suffixes
    require(len(suffixes) == len(expected) and set(suffixes) == set(expected), "wrong suffixes without links", text, suffixes)
    for c in list(candidates)[:40]:
        first = oracle.first(text, c)
        require(sa.find_substring(bare, c) == first, "recognised wrongly without links and terminals", text, c)
        every = [i for i in range(n - len(c) + 1) if text[i : i + len(c)] == c]
        require(list(sa.find_substring_all(linked, c)) == every, "found wrongly without terminals", text, c)
        require(sa.find_lcs(bare, c) == sa.find_lcs(root, c), "another longest run without links and terminals", text, c)
    note.nontrivial(n >= 3 and len(set(text)) < n)
    note("iterator" if iterated else "sequence")


@C04.random(
    "texts",
    lambda tier: st.tuples(gen.reps, st.booleans(), gen.sequences(limits=((0, 8), (4, 20), (10, 26)))),
    quick=6000,
)
def _(case, note):
    rep, iterated, text = case
    text = text[:30]
    tokens = sorted(set(text))[:6]
    tokens.append(max(tokens, default=0) + 1)
    check_index(enc(rep, text), iterated, note, [enc(rep, bytes((t,))) for t in tokens])


TYPES = {
    "list": lambda s: list(gen.mixed(s)),
    "user list": lambda s: UserList(gen.numbers(s)),
    "array": lambda s: array.array("q", list(s)),
    "deque": lambda s: deque(gen.fresh(s)),
    "bytearray": bytearray,
    "range": lambda s: range(min(s, default=0), min(s, default=0) + 3 * len(s), 3),
    "user string": lambda s: UserString(gen.wide(s)),
    "iterator": lambda s: iter(gen.mixed(s)),
    "characters": lambda s: iter(gen.wide(s)),
    "values": lambda s: dict(enumerate(gen.mixed(s))).values(),
}


@C04.random("kinds", lambda tier: st.tuples(st.sampled_from(tuple(TYPES)), gen.sequences(limits=((0, 8), (4, 20)))), quick=2000)
def _(case, note):
    """Sequences and iterables of other types have tuples as suffixes."""
    kind, text = case
    x = TYPES[kind](text)
    tokens = tuple(TYPES[kind](text))
    root = sa.build(x)
    suffixes = list(sa.all_suffixes(root))
    n = len(tokens)
    require(len(suffixes) == n + 1 and set(map(len, suffixes)) == set(range(n + 1)), "not every suffix exactly once", tokens, suffixes)
    require(all(tokens[n - len(s) :] == tuple(s) for s in suffixes), "wrong suffixes", tokens, suffixes)
    for i in range(n):
        for j in (i + 1, i + 2, i + 5, n):
            cut = tokens[i:j]
            expected = [at for at in range(n - len(cut) + 1) if tokens[at : at + len(cut)] == cut]
            require(list(sa.find_substring_all(root, cut)) == expected, "wrong positions", tokens, cut)
            require(sa.find_substring(root, list(cut)) == expected[0], "wrong position", tokens, cut)
    note.nontrivial(n >= 3 and len(set(text)) < n)
    note(kind)


@C04.random(
    "long",
    lambda tier: st.tuples(gen.reps, st.booleans(), gen.long_sequences(400), gen.raw(0, 24)),
    quick=240,
)
def _(case, note):
    """Every suffix, and some of the runs and of what's nearly a run."""
    rep, iterated, text, script = case
    k = max(text) + 2
    x = enc(rep, text)
    root = sa.build(iter(x), empty=x[0:0]) if iterated else sa.build(x)
    n = len(x)
    suffixes = list(sa.all_suffixes(root))
    require(sorted(map(len, suffixes)) == list(range(n + 1)), "not every suffix exactly once", x, sorted(map(len, suffixes)))
    require(all(x[n - len(s) :] == s for s in suffixes), "wrong suffixes", x)
    for i in range(0, len(script) - 2, 3):
        at, size, other = script[i : i + 3]
        at = at * n >> 8
        cut = text[at : at + 2 + size * size // 200]
        for c in (cut, cut[:-1] + bytes((other % k,)), bytes((other % k,)) + cut, cut + bytes((other % k,))):
            found = sa.find_substring(root, enc(rep, c))
            expected = oracle.first(text, c)
            require(found == expected, "recognised wrongly", x, c, found, expected)
    note.nontrivial(len(set(text)) < n)


@C04.random("giant", lambda tier: st.tuples(giant.reps, st.booleans(), giant.specs(1), _cuts), quick=32, cpu_s=300)
def _(case, note):
    rep, iterated, spec, cuts = case
    (text,) = giant.expand(spec)
    candidates = giant_patterns(text, cuts, spec[3])
    x, *xs = giant.enc(rep, text, *candidates)
    root = sa.build(iter(x), empty=x[0:0]) if iterated else sa.build(x)
    for c, q in zip(candidates, xs):
        found = sa.find_substring(root, q)
        at = text.find(c)
        require(found == (None if at < 0 else at), "recognised wrongly", case, len(c), c[:80], found, at)
    # The suffixes that the index accepts, walking down and skipping what isn't the text.
    terminal = []
    for at in {0, 1, len(text) // 2, len(text) - 1, len(text), *(len(text) * a >> 12 for _, a, _ in cuts)}:
        state = root
        for t in x[at:]:
            state = state.transitions[t]
        terminal.append(state.is_terminal)
    require(all(terminal), "a suffix isn't accepted as one", case)
    note.nontrivial(len(set(text)) < len(text))


@C04.exhaustive("small", lambda tier: gen.all_sequences(3, 6 if tier == "quick" else 9))
def _(case, note):
    text = gen.letters(case)
    check_index(text, False, note, list("abcd"))


# ------------------------------------------------------------------ C05

C05 = prop(
    "C05",
    "A case is a family of inputs described by a unit, a structure and the tokens in between; the work is measured for "
    "a member of size n and one of size 8n (n from 120 to 360). Work is the number of executed source lines plus "
    "the number of times tokens are hashed or compared, and the number of tokens copied by slicing; memory is the peak of traced allocations. Non-trivial: "
    "the input is repetitive (some token recurs at least four times). Oracle: the ratio for 8n against n is at most 16, whereas it would be 64 for quadratic growth. The time campaign measures CPU time at "
    "5000 and 80000 tokens; the ratio is at most 110, whereas it would be more than 250.",
    ["growth between n and 8n, with n up to 360, stands for asymptotic growth"],
)


class Counted:
    """A token that counts how often it's hashed or compared."""

    __slots__ = ("v",)
    count = 0

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        Counted.count += 1
        return hash(self.v)

    def __eq__(self, other):
        Counted.count += 1
        return type(other) is Counted and self.v == other.v


class Watched(tuple):
    """A sequence that counts the tokens that are copied out of it or
    scanned in it by a single operation, which executed lines don't show."""

    __slots__ = ()
    count = 0

    def __getitem__(self, index):
        result = tuple.__getitem__(self, index)
        if isinstance(index, slice):
            Watched.count += len(result)
            result = Watched(result)
        return result

    def __add__(self, other):
        Watched.count += len(self) + len(other)
        return Watched(tuple.__add__(self, other))

    def __contains__(self, token):
        Watched.count += len(self)
        return tuple.__contains__(self, token)

    def index(self, *arguments):
        Watched.count += len(self)
        return tuple.index(self, *arguments)


def family(kind, unit, n):
    """Input of about n tokens.  All members have the same structure."""
    unit = unit or b"\0"
    if kind == 0:
        return (unit * (n // len(unit) + 1))[:n]
    if kind == 1:
        return gen.fibonacci(n)
    if kind == 2:
        return gen.thue_morse(n)
    if kind == 3:
        return b"\0" * (n // 2) + unit + b"\0" * (n // 2)
    if kind == 4:
        return b"\0" * (n // 2) + b"\1" * (n // 2)
    if kind == 5:  # pseudo-random from the unit
        x, out = int.from_bytes(unit, "big") + 1, bytearray()
        for _ in range(n):
            x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            out.append((x >> 33) % 3)
        return bytes(out)
    if kind == 6:  # a^i b with growing i
        out, i = bytearray(), 1
        while len(out) < n:
            out += b"\0" * i + b"\1"
            i += 1
        return bytes(out[:n])
    x = family(0, unit, n // 2)
    return x + x[::-1]


KINDS = 8


def measure(action):
    """Number of lines executed in /repo/src, plus token operations."""
    lines = 0
    monitoring = sys.monitoring
    tool = monitoring.PROFILER_ID

    def on_line(code, line):
        nonlocal lines
        lines += 1

    monitoring.use_tool_id(tool, "work")
    monitoring.register_callback(tool, monitoring.events.LINE, on_line)
    Counted.count = Watched.count = 0
    monitoring.set_events(tool, monitoring.events.LINE)
    try:
        action()
    finally:
        monitoring.set_events(tool, 0)
        monitoring.register_callback(tool, monitoring.events.LINE, None)
        monitoring.free_tool_id(tool)
    return lines, Counted.count, Watched.count


def memory(action):
    tracemalloc.start()
    try:
        result = action()
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    del result
    return peak


LIMIT = 16
FACTOR = 8


@C05.random(
    "growth",
    lambda tier: st.tuples(
        st.integers(0, KINDS - 1), gen.raw(1, 5), st.integers(0, KINDS - 1), gen.raw(1, 5),
        st.sampled_from((240, 360)), st.integers(0, 4),
    ),
    quick=240,
    thorough=2400,
    cpu_s=120,
)
def _(case, note):
    kind1, unit1, kind2, unit2, n, operation = case
    unit1, unit2 = gen.mod(unit1, 3), gen.mod(unit2, 3)
    if operation in (2, 3):
        n //= 2

    def action(size, wrap):
        x = [wrap(t) for t in family(kind1, unit1, size)]
        y = [wrap(t) for t in family(kind2, unit2, size)]
        x, y = Watched(x), Watched(y)
        if operation == 0:
            return lambda: sa.build(x)
        if operation == 1:
            return lambda: gaspra.find_lcs(x, y)
        if operation == 2:
            return lambda: gaspra.find_lcs_multiple(x, y)
        if operation == 4:
            return lambda: list(gaspra.find_substring(x, y[: len(unit2)]))
        z = x[size // 3 :] + x[: size // 3]
        return lambda: gaspra.find_lcs_multiple(x, y, z)

    small, large = measure(action(n, Counted)), measure(action(FACTOR * n, Counted))
    for what, s, l in zip(("executed lines", "token comparisons", "copied tokens"), small, large):
        require(l <= LIMIT * s + 2000, f"{what} grew from {s} to {l} as the input grew eightfold", case)
    note(f"line ratio {large[0] / small[0]:.0f}")
    s, l = memory(action(n, int)), memory(action(FACTOR * n, int))
    require(l <= LIMIT * s, f"memory grew from {s} to {l} bytes as the input grew eightfold", case)
    note(f"memory ratio {l / s:.0f}")
    note.nontrivial(True)


def cpu_time(action, times):
    """The least of several, without the collector, whose work depends on what
    else there is."""
    best = math.inf
    for _ in range(times):
        gc.collect()
        gc.disable()
        try:
            start = time.process_time()
            result = action()
            best = min(best, time.process_time() - start)
        finally:
            gc.enable()
        del result
    return best


TIME_FACTOR = 16
TIME_LIMIT = 110


@C05.exhaustive(
    "time",
    lambda tier: [
        (kind, operation)
        for kind in ("random", "two letters", "one letter", "Fibonacci", "distinct")
        for operation in ("substring", "lcs", "multiple", "multiple short")
    ],
    cpu_s=600,
)
def _(case, note):
    """Work inside of single operations of the interpreter, such as copying a
    list, shows at sizes at which the rest doesn't take long.  Times of linear
    code grow by 10 to 35 here, those of quadratic code by 250 or more; a
    ratio counts if it's found three times."""
    kind, operation = case

    def sequence(n):
        if kind == "one letter":
            return "a" * n
        if kind == "Fibonacci":
            return gen.letters(gen.fibonacci(n))
        return giant.base(n, {"random": 26, "two letters": 2, "distinct": n}[kind], 4 if kind == "distinct" else 0, 5)

    def action(n):
        if operation.startswith("multiple"):
            n //= 2
        x = sequence(n)
        y = x[n // 3 :] + x[: n // 3]
        if operation == "substring":
            return lambda: list(gaspra.find_substring(x, x[:1]))
        if operation == "lcs":
            return lambda: gaspra.find_lcs(x, y)
        if operation == "multiple":
            return lambda: gaspra.find_lcs_multiple(x, y)
        # Three, one of them longer than the others.
        return lambda: gaspra.find_lcs_multiple(x[: n // 2], y, x[n // 2 :])

    n = 5000
    small, large = action(n), action(TIME_FACTOR * n)
    ratios = []
    while len(ratios) < 3:
        s, l = cpu_time(small, 3), cpu_time(large, 1)
        ratios.append(l / max(s, 0.003))
        if ratios[-1] <= TIME_LIMIT:
            break
    require(
        ratios[-1] <= TIME_LIMIT,
        f"CPU time grew from {s:.3f} s to {l:.3f} s as the input grew {TIME_FACTOR}-fold, as often as it was measured", case, ratios,
    )
    note(f"time ratio {ratios[-1] // 10 * 10:.0f} to {ratios[-1] // 10 * 10 + 10:.0f}")
    note.nontrivial(kind != "distinct")


# ------------------------------------------------------------------ bulk


@C01.bulk("bulk", bulk.represented(bulk.searched), quick=60000)
def _(case, note):
    rep, (text, patterns) = case
    check_search(enc(rep, text), [enc(rep, p) for p in patterns], note)


@C02.bulk("bulk", bulk.represented(bulk.pair), quick=80000)
def _(case, note):
    rep, (a, b) = case
    check_lcs(enc(rep, a), enc(rep, b), note)


@C03.bulk("bulk", bulk.represented(bulk.several), quick=30000)
def _(case, note):
    rep, seqs = case
    check_multiple(tuple(enc_many(rep, s) for s in seqs), note)
