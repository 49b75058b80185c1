"""C27 and C28: size and nesting; dependence on nothing but equality."""

import copy
import random
import sys

import hypothesis.strategies as st

import gaspra
from gaspra import changesets, serialize, suffix_automaton as sa, tokenizers
from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
from gaspra.memory_tree import MemoryTree
from gaspra.types import Change
from gaspra.versions import Versions

from pbt import bulk, gen, giant
from pbt.core import prop, require
from pbt.gen import enc
from pbt.props.diff import side
from pbt.props.tools import check_line_diff

# ------------------------------------------------------------------ C27

C27 = prop(
    "C27",
    "A case is an operation with an input of a given shape and size: hundreds to thousands of separate changes that nest to the left, to "
    "the right, evenly or at random, long runs and periodic sequences, many sequences, long histories. Some run with few frames left on "
    "the stack, as when called from a deep one. Non-trivial: all, by construction. Oracle: the operation succeeds, and its result is "
    "checked by reconstruction.",
    ["Recursion whose depth doesn't grow with the number of changes is allowed for by 150 to 200 frames."],
)


class Scarce:
    """Only so many frames are left on the stack."""

    def __init__(self, frames):
        self.frames = frames

    def __enter__(self):
        self.before = sys.getrecursionlimit()
        if self.frames:
            depth = 0
            frame = sys._getframe()
            while frame is not None:
                depth += 1
                frame = frame.f_back
            sys.setrecursionlimit(depth + self.frames)

    def __exit__(self, *_):
        sys.setrecursionlimit(self.before)


def lengths(shape, n):
    """Lengths of the common runs between n changes.  The longest one is
    split off first, and the first of equally long ones."""
    if shape == "right":
        return [1] * n
    if shape == "falling":
        return [1 + (n - i) // 8 for i in range(n)]
    if shape == "left":
        return list(range(1, n + 1))
    if shape == "even":
        out = [1] * n
        step, length = n, 1
        while step > 1:
            step //= 2
            length += 1
        for i in range(n):
            out[i] = 1 + ((i + 1) & -(i + 1)).bit_length()
        return out
    x, out = n, []
    for i in range(n):  # mixed
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        out.append(1 + (x >> 40) % 5)
    return out


def versions_with_changes(shape, n, every=1, offset=0, marks=("old", "new")):
    """Two versions with n separate changes.  Only the places i with
    i % every == offset differ."""
    x, y = [], []
    for i, length in enumerate(lengths(shape, n)):
        run = [("run", i, j) for j in range(length)]
        x += run + [(marks[0], i)]
        y += run + [(marks[1], i)] if i % every == offset else run + [(marks[0], i)]
    return x, y


def as_text(tokens):
    """One character for each token."""
    return "".join(chr(0x4E00 + t) for t in number(tokens))


def number(tokens, known={}):
    return [known.setdefault(t, len(known)) for t in tokens]


def as_lines(tokens):
    return "".join(" ".join(map(str, t)) + "\n" for t in tokens)


# (operation, shape, changes, frames left or 0 for those there are)
NESTED = [
    (operation, shape, n, frames)
    for operation in ("diff", "merge", "patch", "lines", "store", "conflicts")
    for shape, n, frames in (("right", 240, 150), ("left", 120, 90), ("even", 400, 150), ("mixed", 300, 150), ("falling", 200, 150))
] + [(operation, "right", 1060, 0) for operation in ("diff", "merge", "lines")]
NESTED_THOROUGH = [
    (operation, shape, n, 0)
    for operation in ("diff", "merge", "patch", "lines", "store", "conflicts")
    for shape, n in (("right", 3000), ("left", 1050), ("even", 6000), ("mixed", 4000))
]


@C27.exhaustive("changes", lambda tier: NESTED if tier == "quick" else NESTED + NESTED_THOROUGH, cpu_s=600)
def _(case, note):
    operation, shape, n, frames = case
    note.nontrivial()
    x, y = versions_with_changes(shape, n)
    if operation == "diff":
        for a, b in ((tuple(x), tuple(y)), (as_text(y), as_text(x))):
            with Scarce(frames):
                d = list(gaspra.diff_token_sequences(a, b))
            require(sum(isinstance(p, Change) for p in d) == n, f"not {n} changes", d)
            require(side(d, 1, a[0:0]) == a and side(d, 0, a[0:0]) == b, "not lossless", shape, n)
    elif operation == "patch":
        a, b = tuple(x), tuple(y)
        with Scarce(frames):
            stream = list(changesets.find_changeset(a, b).as_change_stream())
            forward = changesets.apply(list(changesets.strip_forward(stream)), a)
            reverse = changesets.apply(list(changesets.strip_reverse(stream)), b)
        require(forward == b and reverse == a, "wrong patches", shape, n)
        patch = [p if type(p) is slice else bytes(len(p)) for p in changesets.strip_forward(stream)]
        with Scarce(frames):
            again = list(serialize.deserialize_changeset(serialize.serialize_changeset(patch)))
        require(again == patch, "serialized patch", shape, n)
    elif operation == "lines":
        a, b = as_lines(x), as_lines(y)
        with Scarce(frames):
            source = list(tokenizers.diff(a, b, tokenizers.LineTokenizer()))
            line_diff = list(to_line_diff(iter(source)))
        require(side(source, 1, "") == a and side(source, 0, "") == b, "not lossless", shape, n)
        require(len(line_diff) > 0, "no line diff", shape, n)
        check_line_diff(source, b, a, note)
    elif operation == "store":
        a, b = (as_lines(t).encode() for t in (x, y))
        store = Versions(tokenizer_factory=tokenizers.LineTokenizer)
        with Scarce(frames):
            store.add(0, a)
            store.add(1, b, 0)
            got = store.get(0), store.get(1)
        require(got == (a, b), "a stored version has changed", shape, n)
    else:
        p = tuple(x)
        if operation == "merge":  # each branch changes every other place
            a = tuple(versions_with_changes(shape, n, 2, 0, ("old", "A"))[1])
            b = tuple(versions_with_changes(shape, n, 2, 1, ("old", "B"))[1])
        else:  # every change conflicts
            a = tuple(versions_with_changes(shape, n, 1, 0, ("old", "A"))[1])
            b = tuple(versions_with_changes(shape, n, 1, 0, ("old", "B"))[1])
        with Scarce(frames):
            m = list(gaspra.merge_token_sequence(p, a, b))
        if operation == "merge":
            expected = tuple(("AB"[t[1] % 2], t[1]) if t[0] == "old" else t for t in p)
            require(not any(isinstance(f, Change) for f in m), "conflicts", shape, n)
            require(side(m, 0, ()) == expected, "wrong merge", shape, n)
        else:
            require(sum(isinstance(f, Change) for f in m) == n, f"not {n} conflicts", m)
            require(side(m, 0, ()) == a and side(m, 1, ()) == b, "wrong conflicts", shape, n)


def long_text(kind, n):
    if kind == "run":
        return b"\0" * n
    if kind == "period":
        return (b"\0\1\0\2\0\1" * n)[:n]
    if kind == "fibonacci":
        return gen.fibonacci(n)
    if kind == "thue-morse":
        return gen.thue_morse(n)
    if kind == "a^n b a^n":
        return b"\0" * (n // 2) + b"\1" + b"\0" * (n // 2)
    return bytes((i * i // 7 + i) % 4 for i in range(n))


LONG = ("run", "period", "fibonacci", "thue-morse", "a^n b a^n", "mixture")


@C27.exhaustive(
    "searching",
    lambda tier: [
        (operation, kind, n, frames)
        for operation in ("substring", "lcs", "multiple", "diff")
        for kind in LONG
        for n, frames in (((1800, 120), (4000, 0)) if tier == "quick" else ((1800, 120), (4000, 0), (30000, 0)))
        if operation != "diff" or n < 4000 or kind not in ("fibonacci", "thue-morse", "mixture")
    ],
    cpu_s=300,
)
def _(case, note):
    operation, kind, n, frames = case
    note.nontrivial()
    text = gen.letters(long_text(kind, n))
    if operation == "substring":
        for pattern in (text[:1], text[: n // 2], text[-(n // 3) :]):
            with Scarce(frames):
                got = list(gaspra.find_substring(text, pattern))
            expected = []
            at = text.find(pattern)
            while at >= 0:
                expected.append(at)
                at = text.find(pattern, at + 1)
            require(got == expected, "wrong positions", kind, n, len(pattern), got, expected)
    elif operation == "lcs":
        other = text[n // 4 : n // 2] + "!" + text[: n // 4]
        for a, b in ((text, other), (other, text)):
            with Scarce(frames):
                x, y, length = gaspra.find_lcs(a, b)
            require(length >= n // 2 - n // 4 and a[x : x + length] == b[y : y + length], "not a longest run", kind, n, (x, y, length))
            require((a.find(b[y : y + length]), b.find(a[x : x + length])) == (x, y), "not the first", kind, n)
    elif operation == "multiple":
        # Many sequences, and long ones.
        m = n // 20
        many = [f"{chr(0x1000 + i)}{text[:20]}{chr(0x3000 + i)}" for i in range(m)]
        with Scarce(frames):
            positions, length = gaspra.find_lcs_multiple(*many)
        require(length == 20 and list(positions) == [1] * m, "wrong positions", kind, n, (positions, length))
        long_ones = ["<" + text, text + ">", text[: n - 7]]
        with Scarce(frames):
            positions, length = gaspra.find_lcs_multiple(*long_ones)
        require(length == n - 7 and list(positions) == [1, 0, 0], "wrong positions", kind, n, (positions, length))
    else:
        k = n // 3
        other = text[:k] + "!" + text[k : 2 * k] + text[2 * k + 5 :]
        with Scarce(frames):
            d = list(gaspra.diff_token_sequences(text, other))
            m = list(gaspra.merge_token_sequence(text, other, text + "?"))
        require(side(d, 1, "") == text and side(d, 0, "") == other, "not lossless", kind, n)
        require(len(m) > 0, "nothing merged", kind, n)


@C27.exhaustive(
    "histories",
    lambda tier: [("store", 260, 150), ("tree", 2000, 150), ("chain", 700, 150), ("roots", 1100, 150), ("files", 250, 150)]
    + ([("store", 1500, 0), ("chain", 3000, 0)] if tier == "thorough" else []),
    cpu_s=300,
)
def _(case, note):
    what, n, frames = case
    note.nontrivial()
    if what in ("tree", "chain"):
        tree = MemoryTree()
        with Scarce(frames):
            tree.add(0)
            for i in range(1, n):
                tree.add(i, i - 1)
                if what == "tree":
                    split, _ = tree.get_split(i - 1)
                    if split != i - 1:
                        tree.change_parent(split, i)
                tree.change_parent(i - 1, i)
            for i in range(n):
                path = tree.path_to(i)
                require(path[0] == n - 1 and path[-1] == i, "wrong path", i, path)
            if what == "chain":
                require(list(tree.path_to(0)) == list(range(n - 1, -1, -1)), "wrong path in a chain", n)
        return
    store = Versions(tokenizer_factory=tokenizers.LineTokenizer)
    model = {}
    with Scarce(frames):
        for i in range(n):
            lines = [f"line {j} as of {i - (i - j) % 40 if what == 'store' else j}\n" for j in range(40)]
            data = "".join(lines[: 40 if what == "store" else i % 40]).encode()
            base = i - 1 if what == "store" and i else i - 5 if what == "files" and i >= 5 else None
            store.add(i, data, base)
            model[i] = data
        for i, data in model.items():
            require(store.get(i) == data, "a stored version has changed", what, n, i)


# ------------------------------------------------------------------ C28

C28 = prop(
    "C28",
    "A case is two to four related sequences, a representation and a renaming of tokens. The results of every operation on renamed "
    "sequences, in another representation, are named back and compared with those on tuples of integers. Operations are repeated, and "
    "arguments compared with copies taken before. Non-trivial: some result has a change, occurrence or common run. Oracle: the operation "
    "itself (metamorphic).",
)


def outcomes(seqs):
    """Results of all operations, each as nested tuples in which tokens occur
    only in sequences of the type of the arguments."""
    p, a, b = seqs[0], seqs[1], seqs[2]
    stream = list(changesets.find_changeset(p, a).as_change_stream())
    index = sa.build(p)
    return {
        "find_substring": [tuple(gaspra.find_substring(p, s)) for s in (a, a[:1], p[:2], p[1:3], b[-1:])],
        "find_substring of an index": [tuple(sa.find_substring_all(index, s)) for s in (a[:2], p[2:3])],
        "first occurrence": [sa.find_substring(index, s) for s in (a[:2], p[2:3], b)],
        "find_lcs": tuple(gaspra.find_lcs(p, a)),
        "find_lcs of an index": tuple(sa.find_lcs(index, b)),
        "find_lcs_multiple": [(tuple(r[0]), r[1]) for r in (gaspra.find_lcs_multiple(*seqs), gaspra.find_lcs_multiple(p, a))],
        "diff": list(gaspra.diff_token_sequences(p, a)),
        "diff in reverse": list(gaspra.diff_token_sequences(a, p)),
        "patch": list(changesets.strip_forward(stream)),
        "reverse patch": list(changesets.strip_reverse(stream)),
        "apply": [changesets.apply_forward(stream, p), changesets.apply_reverse(stream, a)],
        "merge": list(gaspra.merge_token_sequence(p, a, b)),
        "merge with the branches swapped": list(gaspra.merge_token_sequence(p, b, a)),
    }


def named(piece, kind, names):
    """A piece of a result with tokens as numbers."""
    if isinstance(piece, Change):
        return ("change", *(named(side, kind, names) for side in piece))
    if isinstance(piece, slice):
        return ("slice", piece.start, piece.stop)
    # Tokens of any sequence that isn't a string or bytes come back as a tuple or as the same kind of sequence.
    require(isinstance(piece, kind) or kind is list and isinstance(piece, tuple), "a piece of another type", piece, kind)
    return ("tokens", *(names[t] for t in piece))


def results_of(seqs, kind, names):
    out = {}
    for name, result in outcomes(seqs).items():
        if name.startswith("find") or name == "first occurrence":
            out[name] = result
        else:
            out[name] = [named(r, kind, names) for r in result]
    return out


def renamed(seqs, rep, renaming):
    """seqs: bytes, or strings of giant size, renamed at random."""
    if isinstance(seqs[0], bytes):
        mapped = [bytes(renaming[t] for t in s) for s in seqs]
        return [list(s) if rep == "list" else enc(rep, s) for s in mapped]
    used = sorted(set().union(*seqs))
    # Bytes, and the code points of texts, are limited.
    new = used if rep == "bytes" else [giant.char(i) for i in range(len(used) + 1000)]
    if rep == "bytes" and max(used, default="") > "\xff":
        rep = "ints"
    new = random.Random(renaming).sample(new, len(used))
    table = str.maketrans(dict(zip(used, new)))
    mapped = [s.translate(table) for s in seqs]
    return [list(s) for s in mapped] if rep == "list" else [giant.REPS[rep](s) for s in mapped]


def check_same(seqs, rep, renaming, note):
    plain = [tuple(s) if isinstance(s, bytes) else tuple(map(ord, s)) for s in seqs]
    expected = results_of(plain, tuple, {t: t for s in plain for t in s})
    # Once more: nothing is remembered between calls.
    again = results_of(plain, tuple, {t: t for s in plain for t in s})
    require(again == expected, "another result the second time", plain, *differing(again, expected))

    given = renamed(seqs, rep, renaming)
    before = copy.deepcopy(given)
    back = {}
    for s, g in zip(plain, given):
        back.update(zip(g, s))
    got = results_of(given, type(given[0]), back)
    require(got == expected, f"another result for {rep}", plain, given, *differing(got, expected))
    require(given == before, "the arguments were changed", given, before)
    note.nontrivial(any(p[0] == "change" for p in expected["diff"]) and expected["find_lcs"][2] > 0)
    note(rep)


def differing(x, y):
    return [(k, x[k], y[k]) for k in x if x[k] != y[k]]


@C28.random(
    "renamed",
    lambda tier: st.tuples(
        st.sampled_from(gen.REPS + ("list",)),
        gen.triples(limits=((0, 8), (4, 25))),
        st.one_of(st.just(b""), gen.raw(0, 8)),
        st.permutations(range(32)),
    ).filter(lambda t: max(max(s, default=0) for s in t[1] + (t[2],)) < 250),
    quick=6400,
)
def _(case, note):
    rep, seqs, extra, permutation = case
    seqs = [*seqs] + ([gen.mod(extra, 4)] if extra else [])
    renaming = [*permutation, *range(32, 256)]
    check_same(seqs, rep, renaming, note)


@C28.random(
    "long",
    lambda tier: st.tuples(gen.reps, gen.long_triples(250, (2, 26, 200)), st.permutations(range(32))),
    quick=400,
)
def _(case, note):
    rep, seqs, permutation = case
    check_same(list(seqs), rep, [*permutation, *range(32, 256)], note)


@C28.random(
    "giant",
    lambda tier: st.tuples(st.sampled_from(tuple(giant.REPS) + ("list",)), giant.specs(3, 5100), st.integers(0, 1 << 16)),
    quick=24,
    thorough=400,
)
def _(case, note):
    rep, spec, key = case
    check_same(giant.expand(spec), rep, key, note)


@C28.exhaustive(
    "small",
    lambda tier: (
        (rep, p, a, b)
        for rep in ("str", "bytes", "mixed")
        for p in gen.all_sequences(3, 3)
        for a in gen.all_sequences(3, 3)
        for b in ((b"", b"\1\0", a[::-1]) if tier == "quick" else gen.every_sequence(3, 3))
    ),
)
def _(case, note):
    rep, p, a, b = case
    check_same([p, a, b], rep, [2, 0, 1, *range(3, 256)], note)


@C28.random(
    "lines",
    lambda tier: st.tuples(gen.triples(limits=((0, 8), (4, 20)), alphabets=(2, 3, 4, 26)), st.sampled_from(("line", "char", "null"))),
    quick=3200,
)
def _(case, note):
    """Texts in which each token is a line or a character, compared by the
    tokenizing functions."""
    seqs, kind = case
    names = [f"{'x' * (t % 3)}{t}\n" for t in range(256)] if kind == "line" else [chr(0x100 + t) for t in range(256)]
    factory = {"line": tokenizers.LineTokenizer, "char": tokenizers.CharTokenizer, "null": tokenizers.NullTokenizer}[kind]
    p, a, b = ("".join(names[t] for t in s) for s in seqs)

    def text(tokens):
        return "".join(names[t] for t in tokens)

    def texts_of(result):
        return [Change(text(f[0]), text(f[1])) if isinstance(f, Change) else text(f) for f in result]

    p0, a0, b0 = map(tuple, seqs)
    for expected, got in (
        (texts_of(gaspra.diff_token_sequences(p0, a0)), list(tokenizers.diff(p, a, factory()))),
        (texts_of(gaspra.merge_token_sequence(p0, a0, b0)), list(tokenizers.merged(p, a, b, factory()))),
    ):
        require(got == expected, f"another result for {kind}", p, a, b, got, expected)
    encoded = [s.encode("utf-8") for s in (p, a)]
    if kind != "null":
        got = [
            Change(f[0].decode(), f[1].decode()) if isinstance(f, Change) else f.decode()
            for f in tokenizers.diff(*encoded, factory())
        ]
        expected = texts_of(gaspra.diff_token_sequences(p0, a0))
        require(got == expected, f"another result for bytes and {kind}", p, a, got, expected)
    first = list(consolidated_line_diff(tokenizers.diff(p, a, factory())))
    second = list(consolidated_line_diff(tokenizers.diff(p, a, factory())))
    require(first == second, "another result the second time", p, a, first, second)
    note.nontrivial(any(isinstance(f, Change) for f in tokenizers.diff(p, a, factory())) and p != "" and a != "")


# ------------------------------------------------------------------ bulk


@C28.bulk("bulk", lambda r: (r.choice(gen.REPS + ("list",)), bulk.triple(r), r.randrange(1 << 16)), quick=8000)
def _(case, note):
    rep, seqs, seed = case
    renaming = [*range(32)]
    random.Random(seed).shuffle(renaming)
    check_same(list(seqs), rep, renaming + [*range(32, 256)], note)
