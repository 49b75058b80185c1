"""C06 to C12: diffs, patches, serialization and tokenizers."""

import hypothesis.strategies as st

import gaspra
from gaspra import changesets, serialize, tokenizers
from gaspra.types import Change

from pbt import bulk, gen, giant, oracle, own, texts
from pbt.core import Violation, prop, require
from pbt.gen import enc


def join(empty, pieces):
    """Concatenate pieces, which must all have the type of `empty`."""
    pieces = list(pieces)
    for p in pieces:
        require(type(p) is type(empty), "a piece has another type", p, type(empty).__name__)
    if isinstance(empty, (str, bytes)):
        return empty.join(pieces)
    out = empty
    for p in pieces:
        out = out + p
    return out


def side(result, which, empty):
    """One version read back from a diff: 0 is the first of each change."""
    return join(empty, (p[which] if isinstance(p, Change) else p for p in result))


def has_change(result):
    return any(isinstance(p, Change) for p in result)


PAIR_RULE = (
    "A case is a pair of sequences (unrelated, edited, periodic, built from shared chunks, two edits of an ancestor, "
    "identical), or every pair over small alphabets up to a length, in one of five token representations. "
)

# ------------------------------------------------------------------ C06

C06 = prop(
    "C06",
    PAIR_RULE + "Non-trivial: the diff has a change and an unchanged piece. "
    "Oracle: the inputs themselves (round trip).",
)


def check_lossless(x, y, note):
    d = list(gaspra.diff_token_sequences(x, y))
    empty = x[0:0]
    require(side(d, 1, empty) == x, "the original isn't what the diff says", x, y, d)
    require(side(d, 0, empty) == y, "the modified version isn't what the diff says", x, y, d)
    note.nontrivial(has_change(d) and any(not isinstance(p, Change) for p in d))
    note(f"{min(sum(isinstance(p, Change) for p in d), 6)} changes")


@C06.random(
    "pairs",
    lambda tier: st.tuples(gen.reps, gen.pairs(limits=((0, 8), (4, 30), (15, 60)))),
    quick=32000,
)
def _(case, note):
    rep, (a, b) = case
    check_lossless(enc(rep, a), enc(rep, b), note)


@C06.random("long", lambda tier: st.tuples(gen.reps, gen.long_pairs(600)), quick=800)
def _(case, note):
    rep, (a, b) = case
    check_lossless(enc(rep, a), enc(rep, b), note)


# One way to hold more than 2**16 tokens that's cheap to diff.
def huge_pairs(tier):
    for n in (4000, 66000) if tier == "quick" else (4000, 66000, 140000):
        for at, removed, added in ((n // 2, 1, 1), (n - 1, 0, 2), (n - 300, 290, 0), (3, 0, 70)):
            yield n, at, removed, added


def huge_pair(n, at, removed, added):
    text = "".join(chr(0x4000 + i * i % 9973 + i // 9973) for i in range(n))
    return text, text[:at] + "+" * added + text[at + removed :]


@C06.exhaustive("huge", huge_pairs, cpu_s=300)
def _(case, note):
    check_lossless(*huge_pair(*case), note)


@C06.exhaustive("small", lambda tier: gen.all_pairs(2, 6 if tier == "quick" else 8))
def _(case, note):
    check_lossless(gen.letters(case[0]), gen.letters(case[1]), note)


@C06.exhaustive("small4", lambda tier: gen.all_pairs(4, 4 if tier == "quick" else 5))
def _(case, note):
    check_lossless(tuple(case[0]), tuple(case[1]), note)


@C06.random("giant", lambda tier: st.tuples(giant.reps, giant.specs(2)), quick=48, cpu_s=300)
def _(case, note):
    rep, spec = case
    check_lossless(*giant.enc(rep, *giant.expand(spec)), note)


# ------------------------------------------------------------------ C07

C07 = prop(
    "C07",
    PAIR_RULE + "Non-trivial: the diff has at least two unchanged pieces or a change with two sides. "
    "Oracle: longest common run by bisection over sets of all runs, at every level.",
)


def check_anchored(pieces, x, y, whole):
    """Whether the longest unchanged piece is as long as possible, here and on
    both sides of it."""
    todo = [(pieces, x, y)]
    while todo:
        pieces, x, y = todo.pop()
        best = (oracle if len(x) + len(y) < 3000 else giant).lcs_length(x, y)
        longest = max((len(p) for p in pieces if not isinstance(p, Change)), default=0)
        require(
            longest == best,
            f"the longest unchanged piece has {longest} tokens, but {best} are possible",
            x, y, pieces, whole,
        )
        if best == 0:
            continue
        at = next(i for i, p in enumerate(pieces) if not isinstance(p, Change) and len(p) == longest)
        for part in (pieces[:at], pieces[at + 1 :]):
            todo.append((part, side(part, 1, x[0:0]), side(part, 0, x[0:0])))


def check_anchor(x, y, note):
    d = list(gaspra.diff_token_sequences(x, y))
    previous = None
    for p in d:
        if isinstance(p, Change):
            require(len(p.a) + len(p.b) > 0, "an empty change", x, y, d)
            require(not set(p.a) & set(p.b), "the sides of a change have tokens in common", x, y, d)
        else:
            require(len(p) > 0, "an empty piece", x, y, d)
        require(
            previous is None or isinstance(p, Change) != isinstance(previous, Change),
            "neighbours of one kind", x, y, d,
        )
        previous = p
    if x == y:
        require(not has_change(d), "equal sequences with a change", x, d)
    check_anchored(d, x, y, d)
    unchanged = sum(not isinstance(p, Change) for p in d)
    note.nontrivial(unchanged >= 2 or any(isinstance(p, Change) and p.a and p.b for p in d))
    note(f"{min(unchanged, 6)} unchanged pieces")


@C07.random(
    "pairs",
    lambda tier: st.tuples(gen.reps, gen.pairs(limits=((0, 8), (4, 30), (15, 50)))),
    quick=20000,
)
def _(case, note):
    rep, (a, b) = case
    check_anchor(enc(rep, a), enc(rep, b), note)


@C07.random("long", lambda tier: st.tuples(gen.reps, gen.long_pairs(600)), quick=640)
def _(case, note):
    rep, (a, b) = case
    check_anchor(enc(rep, a), enc(rep, b), note)


@C07.exhaustive("small", lambda tier: gen.all_pairs(2, 6 if tier == "quick" else 7))
def _(case, note):
    check_anchor(gen.letters(case[0]), gen.letters(case[1]), note)


@C07.exhaustive("small4", lambda tier: gen.all_pairs(4, 4 if tier == "quick" else 5))
def _(case, note):
    check_anchor(tuple(case[0]), tuple(case[1]), note)


@C07.random("giant", lambda tier: st.tuples(giant.reps, giant.specs(2, 33000)), quick=32, cpu_s=300)
def _(case, note):
    rep, spec = case
    check_anchor(*giant.enc(rep, *giant.expand(spec)), note)


# ------------------------------------------------------------------ C08

C08 = prop(
    "C08",
    PAIR_RULE + "Non-trivial: the patch has a slice and a change. Oracle: the inputs themselves (round trip).",
)


def check_patch(x, y, note):
    changeset = changesets.find_changeset(x, y)
    stream = list(changeset.as_change_stream())
    forward = list(changesets.strip_forward(stream))
    reverse = list(changesets.strip_reverse(stream))
    for again in ("", " when applied again"):
        for name, got, expected in (
            ("apply_forward", changesets.apply_forward(stream, x), y),
            ("apply_reverse", changesets.apply_reverse(stream, y), x),
            ("apply of the forward patch", changesets.apply(forward, x), y),
            ("apply of the reverse patch", changesets.apply(reverse, y), x),
            ("old_apply_forward", changesets.old_apply_forward(changeset, x), y),
            ("old_apply_reverse", changesets.old_apply_reverse(changeset, y), x),
        ):
            require(
                got == expected and type(got) is type(x),
                f"{name}{again} gave {got!r} for {expected!r}", x, y, stream,
            )
    # A generator will do as well.
    require(changesets.apply_forward(changeset.as_change_stream(), x) == y, "stream applied forward", x, y)
    require(changesets.apply_reverse(changeset.as_change_stream(), y) == x, "stream applied in reverse", x, y)
    slices = sum(isinstance(p, slice) for p in forward)
    note.nontrivial(slices > 0 and len(forward) > slices)
    note(f"{min(slices, 6)} slices")


@C08.random(
    "pairs",
    lambda tier: st.tuples(gen.reps, gen.pairs(limits=((0, 8), (4, 30), (15, 60)))),
    quick=24000,
)
def _(case, note):
    rep, (a, b) = case
    check_patch(enc(rep, a), enc(rep, b), note)


@C08.random(
    "parts",
    lambda tier: st.tuples(gen.reps, gen.pairs(limits=((0, 8), (4, 30))), st.lists(st.integers(0, 255), min_size=4, max_size=4)),
    quick=8000,
)
def _(case, note):
    """Parts of two sequences, compared where they are."""
    rep, (a, b), cuts = case
    x, y = enc(rep, a), enc(rep, b)
    slices = []
    for s, (i, j) in ((x, cuts[:2]), (y, cuts[2:])):
        i, j = sorted((i * (len(s) + 1) >> 8, j * (len(s) + 1) >> 8))
        slices.append(slice(i, None if j == len(s) and cuts[0] % 2 else j))
    u, v = x[slices[0]], y[slices[1]]
    got = list(changesets.find_changeset(x, y, *slices).as_change_stream())
    alone = list(changesets.find_changeset(u, v).as_change_stream())
    starts = [s.start for s in slices]
    expected = [
        p if isinstance(p, Change) else type(p)(*(slice(q.start + n, q.stop + n) for q, n in zip(p, starts))) for p in alone
    ]
    require(got == expected, "another result than for the parts alone", x, y, slices, got, expected)
    require(changesets.apply_forward(got, x) == v, "doesn't give the modified part", x, y, slices, got)
    require(changesets.apply_reverse(got, y) == u, "doesn't give the original part", x, y, slices, got)
    diff = list(changesets.find_changeset(x, y, *slices).as_diff_stream(x))
    require(diff == list(gaspra.diff_token_sequences(u, v)), "another diff than of the parts alone", x, y, slices, diff)
    note.nontrivial(starts[0] != starts[1] and 0 < sum(isinstance(p, Change) for p in got) < len(got))


@C08.random("long", lambda tier: st.tuples(gen.reps, gen.long_pairs(600)), quick=640)
def _(case, note):
    rep, (a, b) = case
    check_patch(enc(rep, a), enc(rep, b), note)


@C08.exhaustive("huge", huge_pairs, cpu_s=300)
def _(case, note):
    check_patch(*huge_pair(*case), note)


@C08.exhaustive("small", lambda tier: gen.all_pairs(2, 5 if tier == "quick" else 7))
def _(case, note):
    check_patch(gen.letters(case[0]), gen.letters(case[1]), note)


@C08.random("giant", lambda tier: st.tuples(giant.reps, giant.specs(2)), quick=32, cpu_s=300)
def _(case, note):
    rep, spec = case
    check_patch(*giant.enc(rep, *giant.expand(spec)), note)


# ------------------------------------------------------------------ C09

C09 = prop(
    "C09",
    "A case is a patch - fragments of bytes and slices in any order, empty ones and offsets up to 2**64-1 included -, "
    "or a pair of byte strings whose patch is used, or arbitrary bytes. Every truncation of the serialized patch is tried "
    "(every one near record boundaries for long ones). "
    "Non-trivial: the patch has two neighbours of one kind, or a number beyond one byte. Oracle: round trip.",
)

EDGES = (0, 1, 239, 240, 241, 242, 2286, 2287, 2288, 2289, 67822, 67823, 67824, 1 << 16, (1 << 24) - 1, 1 << 24,
         (1 << 32) - 1, 1 << 32, (1 << 40) - 1, 1 << 40, (1 << 48) - 1, 1 << 48, (1 << 56) - 1, 1 << 56, (1 << 64) - 1)
offsets = st.one_of(st.integers(0, 300), st.sampled_from(EDGES), st.integers(0, (1 << 64) - 1))
fragments = st.one_of(
    st.binary(max_size=6),
    st.tuples(st.binary(min_size=1, max_size=3), st.sampled_from((239, 240, 241, 242, 300, 2287, 2288, 2300))),
    st.tuples(offsets, offsets).map(lambda t: (min(t), max(t), 0)),
)


def build_patch(items):
    patch = []
    for i in items:
        if isinstance(i, bytes):
            patch.append(i)
        elif len(i) == 2:
            unit, n = i
            patch.append((unit * (n // len(unit) + 1))[:n])
        else:
            patch.append(slice(i[0], i[1]))
    return patch


def nonempty(patch):
    return [p for p in patch if (p.start != p.stop if isinstance(p, slice) else len(p) > 0)]


def drain(stream):
    """What a deserializer yields, and whether it finished."""
    out = []
    try:
        for p in stream:
            out.append(p)
    except RuntimeError as e:
        # Subclasses are internal failures.
        if type(e) is not RuntimeError:
            raise
        return out, False
    return out, True


def same_patch(p, q):
    return len(p) == len(q) and all(type(x) is type(y) and x == y for x, y in zip(p, q))


def check_serialized(patch, note):
    data = serialize.serialize_changeset(patch)
    require(type(data) is bytes, "not bytes", patch, data)
    got = list(serialize.deserialize_changeset(data))
    expected = nonempty(patch)
    require(same_patch(got, expected), "another patch came back", patch, got)
    cuts = range(len(data))
    if len(data) > 300:
        cuts = sorted({*range(0, 40), *range(len(data) - 40, len(data)), *range(0, len(data), max(97, len(data) // 30))})
    for cut in cuts:
        part, _ = drain(serialize.deserialize_changeset(data[:cut]))
        require(
            same_patch(part, expected[: len(part)]),
            f"cut off after {cut} bytes, something else came back", patch, part,
        )
    big = any(max(p.start, p.stop) > 240 if isinstance(p, slice) else len(p) > 240 for p in patch)
    pairs = any(type(p) is type(q) for p, q in zip(patch, patch[1:]))
    note.nontrivial(big or pairs)
    note("long numbers" if big else "short numbers")


@C09.random("patches", lambda tier: st.lists(fragments, max_size=8), quick=12000)
def _(case, note):
    check_serialized(build_patch(case), note)


@C09.random("diffs", lambda tier: gen.pairs(alphabets=(2, 3, 26, 256), limits=((0, 8), (4, 30))), quick=8000)
def _(case, note):
    check_patches_of(*case, note)


def check_patches_of(a, b, note):
    stream = list(changesets.find_changeset(a, b).as_change_stream())
    for patch, x, y in ((changesets.strip_forward(stream), a, b), (changesets.strip_reverse(stream), b, a)):
        patch = list(patch)
        check_serialized(patch, note)
        again = tuple(serialize.deserialize_changeset(serialize.serialize_changeset(patch)))
        require(changesets.apply(again, x) == y, "the patch has another effect", a, b, patch)


@C09.random("long", lambda tier: gen.long_pairs(600), quick=240)
def _(case, note):
    check_patches_of(*case, note)


@C09.exhaustive(
    "huge",
    lambda tier: [(n, m) for n in (65536 - 1, 65536, 67822, 67823, 67824, (1 << 24) - 1, 1 << 24, (1 << 24) + 1) for m in (0, 1, 2288)],
)
def _(case, note):
    n, m = case
    check_serialized([b"\0\xff\xf9" * (n // 3) + b"x" * (n % 3), slice(n, n + m), b"y" * m], note)


@C09.random("junk", lambda tier: gen.sized((0, 6), (1, 20), (10, 40)), quick=12000)
def _(case, note):
    got, finished = drain(serialize.deserialize_changeset(case))
    for p in got:
        require(type(p) in (bytes, slice), "neither bytes nor slice", case, got)
    if finished:
        again = list(serialize.deserialize_changeset(serialize.serialize_changeset(got)))
        require(same_patch(again, got), "doesn't survive another round", case, got, again)
    note("accepted" if finished else "rejected")
    note.nontrivial(not finished and len(got) > 0)


# ------------------------------------------------------------------ C10

C10 = prop(
    "C10",
    "A case is two integers below 2**65 (mostly near range boundaries, powers of two and of 256) and a tail, or a range of "
    "consecutive integers that's enumerated. Non-trivial: an integer above 240. Oracle: an independent encoder written "
    "from SQLite 4's documentation.",
)


def check_varint(v, tail):
    if v >= 1 << 64:
        try:
            got = serialize.vserialize_int(v)
        except OverflowError:
            return None
        raise Violation(f"{v} is too large but was encoded as {got!r}")
    code = serialize.vserialize_int(v)
    require(code == oracle.varint(v), f"wrong encoding of {v}", code, oracle.varint(v))
    require(serialize.vdeserialize_int(code + tail) == (v, tail), f"{v} doesn't decode with a tail", tail)
    return code


near = st.builds(
    lambda base, d: max(0, base + d),
    st.one_of(
        st.sampled_from(EDGES),
        st.integers(0, 64).map(lambda n: 1 << n),
        st.integers(0, 8).map(lambda n: 256**n + 240),
    ),
    st.integers(-300, 300),
)


@C10.random(
    "integers",
    lambda tier: st.tuples(
        st.one_of(near, st.integers(0, (1 << 65) - 1)), st.one_of(near, st.integers(0, (1 << 65) - 1)), st.binary(max_size=9)
    ),
    quick=24000,
)
def _(case, note):
    v, w, tail = case
    codes = check_varint(v, tail), check_varint(w, tail)
    note.nontrivial(max(v, w) > 240)
    if None in codes:
        note("too large")
        return
    x, y = codes
    require((v < w) == (x < y) and (v == w) == (x == y), "encodings out of order", v, w, x, y)
    if v != w:
        require(not x.startswith(y) and not y.startswith(x), "one encoding is a prefix of another", v, w)
    for code in codes:
        for cut in range(len(code)):
            try:
                got = serialize.vdeserialize_int(code[:cut])
            except RuntimeError:
                continue
            raise Violation(f"truncated encoding {code[:cut]!r} of {code!r} was accepted as {got!r}")
    note(f"{len(codes[0])} bytes")
    if v < 1 << 32:
        code = serialize.serialize_int(v)
        require(len(code) == 4, "fixed-length encoding has another length", v, code)
        require(serialize.deserialize_int(code + tail) == (v, tail), "fixed-length encoding doesn't decode", v)
        for cut in range(4):
            try:
                got = serialize.deserialize_int(code[:cut])
            except RuntimeError:
                continue
            raise Violation(f"truncated encoding {code[:cut]!r} was accepted as {got!r}")


@C10.exhaustive(
    "ranges",
    lambda tier: [(lo, lo + 500) for lo in range(0, 72000 if tier == "quick" else 1 << 21, 500)],
)
def _(case, note):
    last = None
    for v in range(*case):
        code = check_varint(v, b"\xff")
        require(last is None or last < code, "encodings out of order", v)
        last = code
    note.nontrivial(case[1] > 241)


# ------------------------------------------------------------------ C11

C11 = prop(
    "C11",
    "A case is a tokenizer, str or bytes, one to four related texts that the tokenizer encodes one after the other (made of "
    "words, symbols, all kinds of line separators, combining and astral characters, NUL), and a rearrangement of their tokens; "
    "for lines and no tokenization the bytes are arbitrary. Non-trivial: two texts that share a unit and differ in another. "
    "Oracle: independent splitting into units.",
    ["bytes given to the character and symbol tokenizers are valid UTF-8; strings hold no lone surrogates"],
)

FACTORIES = {
    "null": tokenizers.NullTokenizer,
    "char": tokenizers.CharTokenizer,
    "line": tokenizers.LineTokenizer,
    "symbol": tokenizers.SymbolTokenizer,
}


def check_tokenizer(kind, contents, picks, note):
    tokenizer = FACTORIES[kind]()
    encoded = [tokenizer.encode(t) for t in contents]
    units = [texts.units(kind, t) for t in contents]
    token_of, unit_of = {}, {}
    for text, tokens, us in zip(contents, encoded, units):
        tokens = list(tokens)
        require(len(tokens) == len(us), f"{len(tokens)} tokens for {len(us)} units", kind, text, tokens, us)
        for t, u in zip(tokens, us):
            require(token_of.setdefault(u, t) == t, "a unit with two tokens", kind, contents, u)
            require(unit_of.setdefault(t, u) == u, "a token for two units", kind, contents, u, unit_of[t])
    for text, tokens in zip(contents, encoded):
        got = tokenizer.decode(tokens)
        require(type(got) is type(text) and got == text, "decoding gives another text", kind, contents, text, got)
    if kind != "null":
        pool = [(t, u) for tokens, us in zip(encoded, units) for t, u in zip(tokens, us)]
        chosen = [pool[p * len(pool) // 256] for p in picks] if pool else []
        got = tokenizer.decode(tuple(t for t, _ in chosen))
        expected = contents[0][0:0].join(u for _, u in chosen)
        require(got == expected, "rearranged tokens decode wrongly", kind, contents, got, expected)
        # Pieces of an encoding are pieces of the text.
        for text, tokens, us in zip(contents, encoded, units):
            for cut in sorted({0, len(us) // 3, len(us) // 2, len(us)}):
                got = tokenizer.decode(tokens[:cut]) + tokenizer.decode(tokens[cut:])
                require(got == text, f"cut at token {cut}, the parts decode wrongly", kind, text, got)
    again = [tokenizer.encode(t) for t in contents]
    require(again == encoded, "encoding again gives other tokens", kind, contents)
    other = b"x" if isinstance(contents[0], str) else "x"
    try:
        got = tokenizer.encode(other)
    except RuntimeError:
        pass
    else:
        raise Violation(f"a tokenizer of {type(contents[0]).__name__} accepted {other!r}")
    require(tokenizer.decode(encoded[0]) == contents[0], "a rejected text changed the tokenizer", kind, contents)
    sets = [set(u) for u in units]
    note.nontrivial(any(x & y and x ^ y for x in sets for y in sets))
    note(f"{kind} {type(contents[0]).__name__}")


@C11.random(
    "texts",
    lambda tier: st.tuples(
        st.sampled_from(texts.KINDS), st.booleans(),
        st.one_of(texts.related(1), texts.related(2), texts.related(4)),
        gen.raw(0, 12),
    ),
    quick=16000,
)
def _(case, note):
    kind, as_bytes, contents, picks = case
    if as_bytes:
        contents = tuple(t.encode("utf-8") for t in contents)
    check_tokenizer(kind, contents, picks, note)


@C11.random(
    "long",
    lambda tier: st.tuples(
        st.sampled_from(texts.KINDS), st.booleans(), st.one_of(texts.long_related(1, 1200), texts.long_related(3)), gen.raw(0, 12)
    ),
    quick=800,
)
def _(case, note):
    kind, as_bytes, contents, picks = case
    if as_bytes:
        contents = tuple(t.encode("utf-8") for t in contents)
    check_tokenizer(kind, contents, picks, note)


@C11.exhaustive(
    "many-units",
    lambda tier: [
        (kind, as_bytes, n)
        for kind in texts.KINDS
        for as_bytes in (False, True)
        for n in ((300, 5000, 70000) if tier == "quick" else (255, 256, 257, 1025, 4097, 5000, 16385, 32769, 65536, 65537, 70000, 300000))
    ],
    cpu_s=120,
)
def _(case, note):
    """Texts of many different units, some of which are in several."""
    kind, as_bytes, n = case
    if kind == "line":
        us = [f"{i}\n" for i in range(n)]
    elif kind == "symbol":
        us = [f"{i}" if j else " " for i in range(n) for j in (0, 1)]
    else:
        us = [chr(0x20000 + i) if 0x7F < i < 0x10000 else chr(i % 0x110000) for i in range(n)]
    parts = us[: n // 3], us[n // 6 :], us[::7], us[-3:], us[:3]
    contents = ["".join(part) for part in parts]
    if as_bytes:
        contents = [t.encode("utf-8") for t in contents]
    check_tokenizer(kind, contents, bytes(range(0, 256, 5)), note)


@C11.exhaustive(
    "long-units",
    lambda tier: [
        (kind, as_bytes, n, letter)
        for kind in texts.KINDS
        for as_bytes in (False, True)
        for n in ((1025, 16400, 66000, 140000) if tier == "quick" else [2**k + d for k in range(8, 21) for d in (-1, 0, 1)])
        for letter in "aé"
    ],
    cpu_s=120,
)
def _(case, note):
    """Words and lines that are long, or differ only at their ends."""
    kind, as_bytes, n, letter = case
    if kind in ("null", "char"):
        n = min(n, 70000)
    end = "\n" if kind == "line" else " "
    word = letter * n
    contents = [word, word + end, word + "b" + end + word, "b" + word + end + word + "b" + end, word[1:] + end]
    if as_bytes:
        contents = [t.encode("utf-8") for t in contents]
    check_tokenizer(kind, contents, b"\0\3\1", note)


@C11.random(
    "any-text",
    lambda tier: st.tuples(
        st.sampled_from(texts.KINDS), st.booleans(),
        st.lists(st.text(st.characters(exclude_categories=("Cs",)), max_size=20), min_size=1, max_size=3),
        gen.raw(0, 12),
    ),
    quick=6000,
)
def _(case, note):
    kind, as_bytes, contents, picks = case
    if as_bytes:
        contents = [t.encode("utf-8") for t in contents]
    check_tokenizer(kind, contents, picks, note)


@C11.random(
    "any-bytes",
    lambda tier: st.tuples(
        st.sampled_from(("null", "line")),
        st.lists(st.binary(max_size=20).map(lambda b: b.replace(b"\xaa", b"\n").replace(b"\x01", b"\n")), min_size=1, max_size=3),
        gen.raw(0, 12),
    ),
    quick=4000,
)
def _(case, note):
    check_tokenizer(*case, note)


@C11.random("many-lines", lambda tier: giant.text_specs(3, (520, 1030, 2100, 4200, 8300, 16500, 33000, 66000)), quick=48, cpu_s=300)
def _(spec, note):
    check_line_encoding(giant.expand_texts(spec), note)


@C11.random("line-encoding", lambda tier: st.one_of(texts.related(1), texts.related(2), texts.related(3)), quick=6000)
def _(case, note):
    check_line_encoding(case, note)


def check_line_encoding(case, note):
    decoding, *encoded = tokenizers.line_encode_strings(*case)
    require(len(encoded) == len(case), "not one encoding per text", case, encoded)
    require(len(set(decoding)) == len(decoding), "a line with two tokens", case, decoding)
    for text, tokens in zip(case, encoded):
        require([decoding[t] for t in tokens] == text.split("\n"), "wrong lines", text, tokens, decoding)
    note.nontrivial(len(case) > 1 and case[0] != case[1] and bool(set(encoded[0]) & set(encoded[1])))


@C11.exhaustive("bmp", lambda tier: [(i, i + 256) for i in range(0, 0x110000, 256) if not 0xD800 <= i < 0xE000 and (tier != "quick" or i < 0x3200 or i % 0x1000 == 0)])
def _(case, note):
    # Each character alone, between words and between symbols.
    text = "".join(f"{chr(c)}a{chr(c)}b+{chr(c)}\n" for c in range(*case))
    for kind in ("char", "symbol", "line"):
        check_tokenizer(kind, (text, text[::-1]), b"\0\x7f\xff", note)
        check_tokenizer(kind, (text.encode("utf-8"),), b"\0\x7f\xff", note)


# ------------------------------------------------------------------ C12

C12 = prop(
    "C12",
    "A case is a sequence of one to four calls, each with a tokenizer (one of its own, one kept from an earlier call of the same "
    "kind, or the default one), str or bytes, and two related texts for a diff or three for a merge; results are consumed at once or only "
    "after all calls. Non-trivial: two calls, or a result with a change and an unchanged piece under a tokenizer. Oracle: diff or merge of the "
    "units themselves, split independently, and the texts themselves.",
    ["bytes given to the character and symbol tokenizers are valid UTF-8"],
)

calls = st.tuples(
    st.sampled_from(("default",) + texts.KINDS),
    st.booleans(),  # bytes?
    st.booleans(),  # keep the tokenizer?
    st.sampled_from(("diff", "merge", "merge with transformer")),
    texts.related(3),
)


long_calls = st.tuples(
    st.sampled_from(("default",) + texts.KINDS), st.booleans(), st.booleans(),
    st.sampled_from(("diff", "merge", "merge with transformer")), texts.long_related(3),
)


def expected_result(kind, what, contents):
    """The operation on units."""
    empty = contents[0][0:0]
    units = [tuple(texts.units("null" if kind == "default" else kind, t)) for t in contents]
    if what == "diff":
        result = gaspra.diff_token_sequences(*units[:2])
    else:
        result = gaspra.merge_token_sequence(*units)
    return [
        Change(empty.join(p.a), empty.join(p.b)) if isinstance(p, Change) else empty.join(p) for p in result
    ]


def transform(piece):
    return ("<", piece, ">")


@C12.random("calls", lambda tier: st.tuples(st.booleans(), st.lists(calls, min_size=1, max_size=4)), quick=9000)
def _(case, note):
    check_calls(*case, note)


@C12.random("long", lambda tier: st.tuples(st.booleans(), st.lists(long_calls, min_size=1, max_size=2)), quick=480)
def _(case, note):
    check_calls(*case, note)


giant_calls = st.tuples(
    st.sampled_from(("default",) + texts.KINDS), st.booleans(), st.booleans(),
    st.sampled_from(("diff", "merge", "merge with transformer")), giant.text_specs(3),
)


@C12.random("giant", lambda tier: st.tuples(st.booleans(), st.lists(giant_calls, min_size=1, max_size=2)), quick=48, cpu_s=300)
def _(case, note):
    late, sequence = case
    check_calls(late, [(*call, giant.expand_texts(spec)) for *call, spec in sequence], note)


def check_calls(late, sequence, note):
    kept = {}
    results = []
    for kind, as_bytes, keep, what, contents in sequence:
        if as_bytes:
            contents = tuple(t.encode("utf-8") for t in contents)
        arguments = list(contents[:2] if what == "diff" else contents)
        if kind != "default":
            if keep:
                tokenizer = kept.setdefault((kind, as_bytes), FACTORIES[kind]())
            else:
                tokenizer = FACTORIES[kind]()
            arguments.append(tokenizer)
        if what == "diff":
            result = tokenizers.diff(*arguments)
        elif what == "merge":
            result = tokenizers.merged(*arguments)
        else:
            result = tokenizers.merged(*arguments, transformer=transform)
        if not late:
            result = list(result)
        results.append((kind, what, contents, result))
    for kind, what, contents, result in results:
        result = list(result)
        expected = expected_result(kind, what, contents)
        if what == "merge with transformer":
            expected = [
                Change(transform(p.a), transform(p.b)) if isinstance(p, Change) else transform(p) for p in expected
            ]
        require(
            result == expected and all(isinstance(p, Change) == isinstance(q, Change) for p, q in zip(result, expected)),
            f"{what} of {kind} units gave something else", contents, result, expected,
        )
        if what == "diff":
            empty = contents[0][0:0]
            require(side(result, 1, empty) == contents[0], "the original can't be read back", kind, contents, result)
            require(side(result, 0, empty) == contents[1], "the modified text can't be read back", kind, contents, result)
        note.nontrivial(len(sequence) > 1 or (kind != "default" and has_change(result) and len(result) > 1))
        note(f"{what} {kind}")


@C12.random(
    "own tokenizers",
    lambda tier: st.tuples(
        st.sampled_from(own.KINDS), st.booleans(), st.booleans(), st.booleans(), st.one_of(texts.related(3), texts.long_related(3)),
    ),
    quick=1600,
)
def _(case, note):
    """A user's tokenizer gives tokens of any kind, in a list or a tuple."""
    kind, as_list, wrapped, as_bytes, contents = case
    if as_bytes:
        contents = tuple(t.encode("utf-8") for t in contents)
    empty = contents[0][:0]
    units = [tuple(own.units(kind, t)) for t in contents]
    for what, arguments in (("diff", 2), ("merge", 3)):
        tokenizer = own.factory(kind, as_list, wrapped)()
        operation, core = {"diff": (tokenizers.diff, gaspra.diff_token_sequences), "merge": (tokenizers.merged, gaspra.merge_token_sequence)}[what]
        result = list(operation(*contents[:arguments], tokenizer))
        expected = [
            Change(empty.join(p.a), empty.join(p.b)) if isinstance(p, Change) else empty.join(p) for p in core(*units[:arguments])
        ]
        require(result == expected, f"{what} of {kind} units gave something else", contents, result, expected)
        if what == "diff":
            require(side(result, 1, empty) == contents[0], "the original can't be read back", contents, result)
            require(side(result, 0, empty) == contents[1], "the modified text can't be read back", contents, result)
        note.nontrivial(has_change(result) and len(result) > 1)
    note(f"{kind} {'list' if as_list else 'tuple'}")


# ------------------------------------------------------------------ bulk


@C06.bulk("bulk", bulk.represented(bulk.pair), quick=80000)
def _(case, note):
    rep, (x, y) = case
    check_lossless(enc(rep, x), enc(rep, y), note)


@C07.bulk("bulk", bulk.represented(bulk.pair), quick=80000)
def _(case, note):
    rep, (x, y) = case
    check_anchor(enc(rep, x), enc(rep, y), note)


@C08.bulk("bulk", bulk.represented(bulk.pair), quick=80000)
def _(case, note):
    rep, (x, y) = case
    check_patch(enc(rep, x), enc(rep, y), note)


@C09.bulk("bulk", bulk.pair, quick=60000)
def _(case, note):
    check_patches_of(*case, note)


@C12.bulk("bulk", lambda r: (r.choice(("default",) + texts.KINDS), r.random() < 0.5, r.choice(("diff", "merge")), bulk.triple(r)), quick=60000)
def _(case, note):
    kind, as_bytes, what, seqs = case
    check_calls(False, [(kind, as_bytes, False, what, tuple(map(bulk.text_of, seqs)))], note)
