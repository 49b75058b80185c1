"""C13 to C17: three-way merges."""

import itertools

import hypothesis.strategies as st

import gaspra
from gaspra.types import Change

from pbt import bulk, gen, giant
from pbt.core import prop, require
from pbt.gen import enc
from pbt.props.diff import has_change, join, side


def merge(p, a, b):
    result = list(gaspra.merge_token_sequence(p, a, b))
    require(len(result) > 0, "a merge without pieces", p, a, b)
    return result


TRIPLE_RULE = (
    "A case is a parent with two branches (edits of the parent, edits that share a part, unrelated, repetitive, made of shared "
    "chunks), or every triple over small alphabets up to a length, in one of five token representations. "
)
UNIQUE_RULE = (
    "Unique-token cases: a parent of distinct tokens, each branch deletes any of them and inserts new tokens in any gaps, some of "
    "which the other branch inserts, too (enumerated completely up to a length). "
)


def small_triples(tier):
    n = 3 if tier == "quick" else 4
    every = list(gen.every_sequence(2, n))
    for p in gen.all_sequences(2, n):
        for a in every:
            for b in every:
                yield p, a, b


# ------------------------------------------------------------------ hunks


def hunks(parent, branch):
    """Edits as the diff shows them: (from, to, inserted), in parent's positions."""
    out = []
    at = 0
    for p in gaspra.diff_token_sequences(parent, branch):
        if isinstance(p, Change):
            out.append((at, at + len(p.b), p.a))
            at += len(p.b)
        else:
            at += len(p)
    return out


def touch(h, g):
    return h[0] <= g[1] and g[0] <= h[1]


def compose(parent, edits):
    out = parent[0:0]
    at = 0
    for lo, hi, inserted in sorted(edits, key=lambda e: e[:2]):
        out = out + parent[at:lo] + inserted
        at = hi
    return out + parent[at:]


# ------------------------------------------------------------------ C13

C13 = prop(
    "C13",
    TRIPLE_RULE + "For each, four merges are made in which a branch equals the parent or both are equal. "
    "Non-trivial: the branch has a change and an unchanged piece. Oracle: the branch itself.",
)


def check_units(p, a, note):
    for x, y, z, expected in ((p, a, p, a), (p, p, a, a), (p, a, a, a), (p, p, p, p)):
        result = merge(x, y, z)
        require(not has_change(result), "a conflict", x, y, z, result)
        got = join(p[0:0], result)
        require(got == expected, "merged to something else", x, y, z, result, expected)
    d = list(gaspra.diff_token_sequences(p, a))
    note.nontrivial(has_change(d) and len(d) > 1)
    note(f"{min(len(d), 8)} pieces")


@C13.random("pairs", lambda tier: st.tuples(gen.reps, gen.pairs(limits=((0, 8), (4, 30), (15, 50)))), quick=14000)
def _(case, note):
    rep, (p, a) = case
    check_units(enc(rep, p), enc(rep, a), note)


@C13.random("long", lambda tier: st.tuples(gen.reps, gen.long_pairs(500)), quick=400)
def _(case, note):
    rep, (p, a) = case
    check_units(enc(rep, p), enc(rep, a), note)


@C13.exhaustive("small", lambda tier: gen.all_pairs(2, 5 if tier == "quick" else 7))
def _(case, note):
    check_units(gen.letters(case[0]), gen.letters(case[1]), note)


@C13.exhaustive("small3", lambda tier: gen.all_pairs(3, 4 if tier == "quick" else 5))
def _(case, note):
    check_units(tuple(case[0]), tuple(case[1]), note)


@C13.random("giant", lambda tier: st.tuples(giant.reps, giant.specs(2, 33000)), quick=32, cpu_s=300)
def _(case, note):
    rep, spec = case
    check_units(*giant.enc(rep, *giant.expand(spec)), note)


# ------------------------------------------------------------------ unique tokens


def branch_of(n, keep, inserted):
    """Tokens 0..n-1, some deleted, with tokens inserted before each and at
    the end.  inserted: n + 1 sequences."""
    out = b""
    for i in range(n):
        out += inserted[i]
        if keep[i]:
            out += bytes((i,))
    return out + inserted[n]


def decode_unique(t):
    """A unique-token case from raw bytes: n, and for each branch n + 1
    numbers that say what happens in each place."""
    n, density, shared, raw0, raw1 = t
    parent = bytes(range(n))
    branches = []
    plan = {}
    for which, raw in enumerate((raw0, raw1)):
        # No more tokens than there are numbers for.
        fresh = iter(range(n, n + (256 - n) // 2) if which == 0 else range(n + (256 - n) // 2, 256))
        keep, inserted = [], []
        for i in range(n + 1):
            x = raw[i] if i < len(raw) else 0
            source = which
            if shared and which and shared >> (i % 8) & 1:
                # The same as in the other branch.
                x = raw0[i] if i < len(raw0) else 0
                source = 0
            keep.append(x % 16 >= density)
            count = (0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3)[x // 16]
            if source == which:
                new = bytes(itertools.islice(fresh, count))
                plan[which, i] = new
            else:
                new = plan[0, i]
            inserted.append(new)
        branches.append(branch_of(n, keep, inserted))
    return parent, *branches


def uniques(most=14, share=True):
    return st.tuples(
        st.integers(0, most), st.sampled_from((2, 5, 9)),
        st.integers(0, 255) if share else st.just(0), gen.raw(0, most + 1), gen.raw(0, most + 1),
    ).map(decode_unique)


def all_uniques(n):
    """Every pair of branches of a parent of n distinct tokens that delete any
    tokens and insert one token in any gaps.  Insertions next to a deletion are
    made in the first gap only, as the others give the same text."""
    parent = bytes(range(n))
    branches = []
    for fresh in (n, 120):
        mine = []
        for keep in itertools.product((1, 0), repeat=n):
            for gaps in itertools.product((0, 1), repeat=n + 1):
                if any(gaps[i + 1] and not keep[i] for i in range(n)):
                    continue
                mine.append(branch_of(n, keep, [bytes((fresh + i,)) if g else b"" for i, g in enumerate(gaps)]))
        branches.append(mine)
    for a in branches[0]:
        for b in branches[1]:
            yield parent, a, b


def all_shared(most):
    """Every pair of branches of a parent of distinct tokens, up to a length,
    that delete any tokens and insert in any gaps a token of their own, one
    that the other branch may insert there too, or both, in any order."""
    for n in range(most + 1):
        parent = bytes(range(n))
        branches = []
        for own in (100, 150):
            choices = [(b"", bytes((own + i,)), bytes((50 + i,)), bytes((own + i, 50 + i)), bytes((50 + i, own + i))) for i in range(n + 1)]
            branches.append([
                branch_of(n, keep, new)
                for keep in itertools.product((1, 0), repeat=n)
                for new in itertools.product(*choices)
                if not any(new[i + 1] and not keep[i] for i in range(n))
            ])
        for a in branches[0]:
            for b in branches[1]:
                yield parent, a, b


def small_uniques(tier):
    for n in range(0, 5 if tier == "quick" else 6):
        yield from all_uniques(n)


# ------------------------------------------------------------------ C14

C14 = prop(
    "C14",
    TRIPLE_RULE + UNIQUE_RULE + "For cases with edits that touch, the text before the first and after the last such place is "
    "checked; with unique tokens each part between commonly kept tokens is merged on its own and compared. Non-trivial: both "
    "branches have an edit, and some edit touches no edit of the other branch. Oracle: composition of the edits that the (separately checked) diff shows.",
)


def check_independent(p, a, b, note):
    h0, h1 = hunks(p, a), hunks(p, b)
    # Edits that both made alike, and that touch nothing else, count as one.
    alike = [h for h in h0 if h in h1 and sum(touch(h, g) for g in h0 + h1) == 2]
    mine = [h for h in h0 if h not in alike]
    other = [h for h in h1 if h not in alike]
    clashes = [h for h in mine for g in other if touch(h, g)] + [g for g in other for h in mine if touch(h, g)]
    result = merge(p, a, b)
    if not clashes:
        expected = compose(p, mine + other + alike)
        require(not has_change(result), "a conflict between separate edits", p, a, b, result)
        got = join(p[0:0], result)
        require(got == expected, "separate edits combined to something else", p, a, b, got, expected)
    else:
        # Edits that come before all clashing ones are applied and undisputed.
        everything = mine + other + alike
        first, last = min(h[0] for h in clashes), max(h[1] for h in clashes)
        before = compose(p[:first], [h for h in everything if h[1] < first])
        after = compose(
            p[last:], [(h[0] - last, h[1] - last, h[2]) for h in everything if h[0] > last]
        )
        plain_start, plain_end = result[0], result[-1]
        empty = p[0:0]
        start = empty if isinstance(plain_start, Change) else plain_start
        end = empty if isinstance(plain_end, Change) else plain_end
        if not has_change(result):
            start = end = join(empty, result)
        require(start[: len(before)] == before, "edits before the first clash aren't applied", p, a, b, result, before)
        require(end[len(end) - len(after) :] == after, "edits after the last clash aren't applied", p, a, b, result, after)
    note.nontrivial(bool(h0) and bool(h1) and any(not any(touch(h, g) for g in h1) for h in h0))
    note("separate" if not clashes else "clashing")
    if alike:
        note("alike")


@C14.random("triples", lambda tier: st.tuples(gen.reps, gen.triples()), quick=10000)
def _(case, note):
    rep, (p, a, b) = case
    check_independent(enc(rep, p), enc(rep, a), enc(rep, b), note)


@C14.random("long", lambda tier: st.tuples(gen.reps, gen.long_triples(400)), quick=480)
def _(case, note):
    rep, (p, a, b) = case
    check_independent(enc(rep, p), enc(rep, a), enc(rep, b), note)


@C14.random("giant", lambda tier: st.tuples(giant.reps, giant.specs(3, 33000)), quick=32, cpu_s=300)
def _(case, note):
    rep, spec = case
    check_independent(*giant.enc(rep, *giant.expand(spec)), note)


@C14.random("giant-unique", lambda tier: giant.unique_specs(33000), quick=32, cpu_s=300)
def _(case, note):
    check_independent(*giant.unique_branches(case), note)


@C14.exhaustive("small", small_triples)
def _(case, note):
    check_independent(*map(gen.letters, case), note)


def _separate(t):
    """Edits in places apart from each other by construction: blocks of the
    parent belong to one branch each, with at least one token in between."""
    rep, k, blocks = t
    p, a, b = b"", b"", b""
    fresh = 60
    for i, (owner, size, deleted, inserted, gap) in enumerate(blocks):
        keep = bytes(j % k for j in gap) + bytes((30 + i,))
        p, a, b = p + keep, a + keep, b + keep
        old = bytes((i + j) % k for j in range(size % 4))
        new = bytes(range(fresh, fresh + inserted % 4))
        fresh += 4
        p += old
        kept = old[: deleted % (len(old) + 1)]
        if owner == 0:
            a, b = a + kept + new, b + old
        elif owner == 1:
            a, b = a + old, b + kept + new
        else:
            a, b = a + kept + new, b + kept + new
    return rep, (p + b"\x1d", a + b"\x1d", b + b"\x1d")


@C14.random(
    "blocks",
    lambda tier: st.tuples(
        st.sampled_from(("str", "bytes", "ints", "mixed")), st.sampled_from((1, 2, 26)),
        st.lists(
            st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), gen.raw(0, 3)),
            min_size=1, max_size=12,
        ),
    ).map(_separate),
    quick=8000,
)
def _(case, note):
    rep, (p, a, b) = case
    check_independent(enc(rep, p), enc(rep, a), enc(rep, b), note)


def normal(result):
    """Pieces with neighbouring plain ones joined and empty ones left out."""
    out = []
    for p in result:
        if not isinstance(p, Change) and out and not isinstance(out[-1], Change):
            out[-1] = out[-1] + p
        elif isinstance(p, Change) or len(p):
            out.append(p)
    return out


def check_local(p, a, b, note):
    """Commonly kept tokens divide a merge into independent merges."""
    result = normal(merge(p, a, b))
    common = [t for t in p if t in a and t in b]
    parts = []
    rest = [p, a, b]
    for t in common + [None]:
        if t is None:
            part, rest = rest, None
        else:
            at = [s.index(t) for s in rest]
            part = [s[:i] for s, i in zip(rest, at)]
            rest = [s[i + 1 :] for s, i in zip(rest, at)]
        parts += merge(*part)
        if t is not None:
            parts.append(p[p.index(t) : p.index(t) + 1])
    parts = normal(parts)
    require(result == parts, "not the merges of the parts", p, a, b, result, parts)
    note.nontrivial(len(common) > 0 and p != a != b != p)
    note(f"{min(len(common), 5)} common")


@C14.random("long-local", lambda tier: uniques(most=110), quick=480)
def _(case, note):
    check_local(*case, note)


@C14.random("local", lambda tier: uniques(), quick=8000)
def _(case, note):
    check_local(*case, note)


# ------------------------------------------------------------------ C15

C15 = prop(
    "C15",
    UNIQUE_RULE + "Also parents that repeat themselves with inserted tokens that occur nowhere else. Non-trivial: both branches "
    "insert and delete. Oracle: sets and orders of tokens computed from the case itself.",
)


def check_no_loss(p, a, b, note):
    result = merge(p, a, b)
    conflict = has_change(result)
    sides = side(result, 0, p[0:0]), side(result, 1, p[0:0])
    P, A, B = set(p), set(a), set(b)
    for which, (mine, other) in enumerate(((a, b), (b, a))):
        text = sides[which]
        M, O, T = set(mine), set(other), set(text)
        repeated = {t for t in T if text.count(t) > 1} if len(T) < len(text) else set()
        # What both insert may appear once for each of them.
        require(repeated <= A & B - P, f"a token twice on side {which}", p, a, b, result)
        require(all(text.count(t) == 2 for t in repeated), f"a token more than twice on side {which}", p, a, b, result)
        require(M - P <= T, f"an insertion lost on its own side {which}", p, a, b, result)
        require(not (P - M) & T, f"a deleted token on the side {which} of the branch that deleted it", p, a, b, result)
        require(P & M & O <= T, f"a token kept by both lost on side {which}", p, a, b, result)
        require(T <= P | M | O, f"a token from nowhere on side {which}", p, a, b, result)
        expected = [t for t in mine if t in T]
        rest = iter(text)
        require(
            all(t in rest for t in expected) if repeated else [t for t in text if t in M] == expected,
            f"another order on side {which}", p, a, b, result,
        )
    for piece in result:
        if isinstance(piece, Change):
            require(not (set(piece.a) & (B - A - P)) and not (set(piece.b) & (A - B - P)), "an insertion on the wrong side", p, a, b, result)
    if not conflict:
        require(set(sides[0]) == (P & A & B) | (A - P) | (B - P), "a merge without conflict has other tokens", p, a, b, result)
    note.nontrivial(A - P and B - P and P - A and P - B)
    note("conflict" if conflict else "clean")


@C15.random("unique", lambda tier: uniques(share=False), quick=24000)
def _(case, note):
    check_no_loss(*case, note)


@C15.random("long", lambda tier: uniques(most=110, share=False), quick=800)
def _(case, note):
    check_no_loss(*case, note)


@C15.random("giant", lambda tier: giant.unique_specs(), quick=48, cpu_s=300)
def _(case, note):
    check_no_loss(*giant.unique_branches(case), note)


@C15.exhaustive("small", lambda tier: small_uniques(tier))
def _(case, note):
    check_no_loss(*case, note)


def _fresh(t):
    """A repetitive parent; the branches delete any of it and insert tokens
    that occur nowhere else."""
    k, base, raw0, raw1, repetitive = t
    p = gen.structured(base, k) if repetitive else gen.mod(base, k)
    branches = []
    for raw, fresh in ((raw0, 40), (raw1, 120)):
        out = b""
        for i in range(len(p) + 1):
            x = raw[i % len(raw)] if raw else 0
            x = (x + 37 * (i // max(len(raw), 1))) % 256
            if x % 16 < 3:
                n = x // 16 % 3
                out += bytes(range(fresh, fresh + n))
                fresh += n
            if i < len(p) and x % 16 < 11:
                out += p[i : i + 1]
        branches.append(out)
    return p, *branches


@C15.random(
    "repetitive",
    lambda tier: st.tuples(
        st.sampled_from((1, 2, 3)), gen.sized((0, 8), (4, 20)), gen.raw(0, 20), gen.raw(0, 20), st.booleans()
    ).map(_fresh),
    quick=12000,
)
def _(case, note):
    p, a, b = case
    result = merge(p, a, b)
    sides = side(result, 0, b""), side(result, 1, b"")
    conflict = has_change(result)
    for which, mine in enumerate((a, b)):
        fresh = [t for t in mine if t >= 40]
        text = sides[which]
        require([t for t in text if t in fresh] == fresh, f"insertions lost, doubled or reordered on side {which}", p, a, b, result)
        for piece in result:
            if isinstance(piece, Change):
                require(not set(piece[1 - which]) & set(fresh), "an insertion on the wrong side", p, a, b, result)
    note.nontrivial(any(t >= 40 for t in a) and any(t >= 40 for t in b) and len(set(p)) < len(p))
    note("conflict" if conflict else "clean")


# ------------------------------------------------------------------ C16

C16 = prop(
    "C16",
    TRIPLE_RULE + UNIQUE_RULE + "Non-trivial: parent and branches all differ. Oracle: the merge with the branches exchanged.",
)


def check_symmetric(p, a, b, note):
    one, two = merge(p, a, b), merge(p, b, a)
    empty = p[0:0]
    require(has_change(one) == has_change(two), "a conflict only in one order", p, a, b, one, two)
    require(
        side(one, 0, empty) == side(two, 1, empty) and side(one, 1, empty) == side(two, 0, empty),
        "exchanging the branches changes the text", p, a, b, one, two,
    )
    note.nontrivial(p != a and a != b and b != p)
    note("conflict" if has_change(one) else "clean")


@C16.random("triples", lambda tier: st.tuples(gen.reps, gen.triples()), quick=16000)
def _(case, note):
    rep, (p, a, b) = case
    check_symmetric(enc(rep, p), enc(rep, a), enc(rep, b), note)


@C16.random("long", lambda tier: st.tuples(gen.reps, gen.long_triples(400)), quick=480)
def _(case, note):
    rep, (p, a, b) = case
    check_symmetric(enc(rep, p), enc(rep, a), enc(rep, b), note)


@C16.random("unique", lambda tier: uniques(), quick=8000)
def _(case, note):
    check_symmetric(*case, note)


@C16.random("giant", lambda tier: st.tuples(giant.reps, giant.specs(3, 33000)), quick=32, cpu_s=300)
def _(case, note):
    rep, spec = case
    check_symmetric(*giant.enc(rep, *giant.expand(spec)), note)


@C16.random("giant-unique", lambda tier: giant.unique_specs(33000), quick=32, cpu_s=300)
def _(case, note):
    check_symmetric(*giant.unique_branches(case), note)


@C16.exhaustive("small", small_triples)
def _(case, note):
    check_symmetric(*map(gen.letters, case), note)


@C16.exhaustive("small-unique", lambda tier: itertools.chain.from_iterable(all_uniques(n) for n in range(0, 4 if tier == "quick" else 5)))
def _(case, note):
    check_symmetric(*case, note)


# ------------------------------------------------------------------ C17

C17 = prop(
    "C17",
    UNIQUE_RULE + TRIPLE_RULE + "Non-trivial: both branches put different new text in one place, or an edit of one overlaps a different edit of the "
    "other; or, for cases of unknown structure, the merge has a conflict. Oracle: edits computed from the case itself.",
)


def edits_of(parent, branch):
    """Edits by definition, for distinct tokens: what lies between kept tokens."""
    out = []
    position = {t: i for i, t in enumerate(parent)}
    at, new = 0, []
    for t in list(branch) + [None]:
        i = len(parent) if t is None else position.get(t)
        if i is None:
            new.append(t)
            continue
        if i > at or new:
            out.append((at, i, tuple(new)))
        at, new = i + 1, []
    return out


def compete(h, g):
    """Whether two edits claim the same part of the parent differently."""
    if h == g:
        return False
    if h[0] == h[1] == g[0] == g[1]:
        return True  # different new text in one place
    # Parts of the parent in common, or an insertion strictly within.
    return max(h[0], g[0]) < min(h[1], g[1]) or h[0] < g[0] == g[1] < h[1] or g[0] < h[0] == h[1] < g[1]


def check_wellformed(p, a, b, result):
    previous = None
    for piece in result:
        if isinstance(piece, Change):
            require(not isinstance(previous, Change), "neighbouring conflicts", p, a, b, result)
            require(piece.a != piece.b, "a conflict between equal sides", p, a, b, result)
            require(not set(piece.a) & set(piece.b), "sides with a token in common", p, a, b, result)
            for text, mine in ((piece.a, a), (piece.b, b)):
                n = len(text)
                require(
                    any(mine[i : i + n] == text for i in range(len(mine) - n + 1)),
                    "a side isn't text of its branch", p, a, b, result,
                )
        previous = piece


def check_flagged(p, a, b, note):
    result = merge(p, a, b)
    check_wellformed(p, a, b, result)
    h0, h1 = edits_of(p, a), edits_of(p, b)
    competing = [(h, g) for h in h0 for g in h1 if compete(h, g)]
    if competing:
        require(has_change(result), "competing edits without a conflict", p, a, b, result, competing)
    note.nontrivial(bool(competing))
    note("competing" if competing else "not competing")


@C17.random("unique", lambda tier: uniques(), quick=18000)
def _(case, note):
    check_flagged(*case, note)


@C17.random("long", lambda tier: uniques(most=110), quick=640)
def _(case, note):
    check_flagged(*case, note)


@C17.random("long-triples", lambda tier: st.tuples(gen.reps, gen.long_triples(400)), quick=400)
def _(case, note):
    rep, (p, a, b) = case
    p, a, b = enc(rep, p), enc(rep, a), enc(rep, b)
    result = merge(p, a, b)
    check_wellformed(p, a, b, result)
    note.nontrivial(has_change(result))


@C17.random("giant", lambda tier: giant.unique_specs(), quick=48, cpu_s=300)
def _(case, note):
    check_flagged(*giant.unique_branches(case), note)


@C17.random("giant-triples", lambda tier: st.tuples(giant.reps, giant.specs(3, 20200)), quick=32, cpu_s=300)
def _(case, note):
    rep, spec = case
    p, a, b = giant.enc(rep, *giant.expand(spec))
    result = merge(p, a, b)
    check_wellformed(p, a, b, result)
    note.nontrivial(has_change(result))


@C17.exhaustive("small", lambda tier: small_uniques(tier))
def _(case, note):
    check_flagged(*case, note)


@C17.random("triples", lambda tier: st.tuples(gen.reps, gen.triples()), quick=14000)
def _(case, note):
    rep, (p, a, b) = case
    p, a, b = enc(rep, p), enc(rep, a), enc(rep, b)
    result = merge(p, a, b)
    check_wellformed(p, a, b, result)
    note.nontrivial(has_change(result))
    note("conflict" if has_change(result) else "clean")


@C17.exhaustive("small-triples", small_triples)
def _(case, note):
    p, a, b = map(gen.letters, case)
    result = merge(p, a, b)
    check_wellformed(p, a, b, result)
    note.nontrivial(has_change(result))


# ------------------------------------------------------------------ bulk


@C17.bulk("bulk", bulk.represented(bulk.triple), quick=40000)
def _(case, note):
    rep, (p, a, b) = case
    p, a, b = enc(rep, p), enc(rep, a), enc(rep, b)
    result = merge(p, a, b)
    check_wellformed(p, a, b, result)
    note.nontrivial(has_change(result))


@C17.bulk("bulk-unique", bulk.unique, quick=40000)
def _(case, note):
    check_flagged(*case, note)


@C16.bulk("bulk", bulk.represented(bulk.triple), quick=40000)
def _(case, note):
    rep, (p, a, b) = case
    check_symmetric(enc(rep, p), enc(rep, a), enc(rep, b), note)


@C16.bulk("bulk-unique", bulk.unique, quick=40000)
def _(case, note):
    check_symmetric(*case, note)


@C14.bulk("bulk", bulk.represented(bulk.triple), quick=40000)
def _(case, note):
    rep, (p, a, b) = case
    check_independent(enc(rep, p), enc(rep, a), enc(rep, b), note)


@C14.bulk("bulk-local", bulk.unique, quick=40000)
def _(case, note):
    check_local(*case, note)


@C15.bulk("bulk-unique", bulk.unique, quick=40000)
def _(case, note):
    check_no_loss(*case, note)


@C15.exhaustive("small-shared", lambda tier: all_shared(2))
def _(case, note):
    check_no_loss(*case, note)


@C17.exhaustive("small-shared", lambda tier: all_shared(2))
def _(case, note):
    check_flagged(*case, note)


@C16.exhaustive("small-shared", lambda tier: all_shared(2))
def _(case, note):
    check_symmetric(*case, note)


@C13.bulk("bulk", bulk.represented(bulk.pair), quick=40000)
def _(case, note):
    rep, (p, a) = case
    check_units(enc(rep, p), enc(rep, a), note)


# ---------------------------------------------------------------- rivals


@C17.random("rivals", lambda tier: st.tuples(giant.reps, giant.rival_specs()), quick=320, cpu_s=300)
def _(case, note):
    rep, spec = case
    p, a, b = giant.enc(rep, *giant.rivals(spec))
    result = merge(p, a, b)
    check_wellformed(p, a, b, result)
    if spec[2] < 2:
        # Both replace all of it.
        require(has_change(result) or a == b, "competing edits without a conflict", p, a, b, result)
    note.nontrivial(has_change(result))


@C16.random("rivals", lambda tier: st.tuples(giant.reps, giant.rival_specs()), quick=160, cpu_s=300)
def _(case, note):
    rep, spec = case
    check_symmetric(*giant.enc(rep, *giant.rivals(spec)), note)


@C15.random("rivals", lambda tier: giant.rival_specs(), quick=160, cpu_s=300)
def _(spec, note):
    """Text of one branch isn't lost where both rewrite the same part."""
    p, a, b = giant.rivals(spec)
    result = merge(p, a, b)
    for which, mine in enumerate((a, b)):
        inserted = "".join(t for t in mine if t not in p)
        text = iter(side(result, which, ""))
        require(all(t in text for t in inserted), f"text lost on side {which}", p, a, b, result)
    note.nontrivial(has_change(result))
