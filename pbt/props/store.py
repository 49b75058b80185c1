"""C22 to C26: version store, trees, manifests and database collections."""

import math
import os
import random
import shutil
import sqlite3
import tempfile
from collections.abc import MutableMapping

import hypothesis.strategies as st

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.manifest import add_manifest, doc_to_manifest, get_manifest, manifest_to_doc
from gaspra.memory_tree import MemoryTree
from gaspra.serialize import deserialize_changeset
from gaspra.tokenizers import CharTokenizer, LineTokenizer, NullTokenizer, SymbolTokenizer
from gaspra.versions import Versions

from pbt import gen, giant, oracle, own, texts
from pbt.core import prop, require

TOKENIZERS = {
    "null": NullTokenizer,
    "char": CharTokenizer,
    "line": LineTokenizer,
    "symbol": SymbolTokenizer,
}

# ------------------------------------------------------------ databases


class Database:
    """Connections to a database of our own, in memory or in a scratch file.
    With a file, every call of the factory gives a new connection, so only
    what has been committed is seen by the next operation."""

    def __init__(self, kind="memory"):
        self.folder = None
        if kind == "memory":
            connection = sqlite3.connect(":memory:")
            self.factory = lambda: connection
        else:
            self.folder = tempfile.mkdtemp(prefix="gaspra-check-")
            path = os.path.join(self.folder, "db")
            first = sqlite3.connect(path)
            first.execute("PRAGMA journal_mode=MEMORY")
            self.first = first

            def factory():
                connection = sqlite3.connect(path, timeout=0.2)
                connection.execute("PRAGMA synchronous=OFF")
                return connection

            self.factory = factory

    def __enter__(self):
        return self

    def __exit__(self, *_):
        if self.folder:
            self.first.close()
            shutil.rmtree(self.folder)


def new_store(backend, tokenizer, database):
    factory = TOKENIZERS[tokenizer] if isinstance(tokenizer, str) else tokenizer
    if backend == "memory":
        return Versions(tokenizer_factory=factory)
    return Versions(
        head_version=DBCollection("head", database.factory),
        diffs=DBCollection("diff", database.factory),
        tree=DBTree(database.factory),
        tokenizer_factory=factory,
    )


# ------------------------------------------------------------ tags

ODD_TAGS = (
    "0", "a", "A", "é", "", "a" * 300, "e\u0301", "a" * 299 + "b", "a" * 70000, "a\x00b", "a\x00c", "'", "\"; DROP TABLE graph; --", "1.0", "01", "None", " ",
    "null", "漢", "\U0001f600", "a ", "%", "_", "\n", "1e0", "NULL", "tag",
)
MEMORY_TAGS = ("", 7, 0, "a", (), b"a", b"", ("a",), frozenset(), -1, 1.5, "0", ("a", 0), "é", range(3), 1 << 70)


def tag_of(style, index):
    if style == "odd":
        return ODD_TAGS[index] if index < len(ODD_TAGS) else f"tag {index}"
    if style == "hashable":
        return MEMORY_TAGS[index] if index < len(MEMORY_TAGS) else ("v", index)
    if style == "reverse":
        return f"{9999 - index}"
    return f"v{index}"


# ------------------------------------------------------------ histories
#
# A history is a list of (base, contents): base is the index of an earlier
# entry, -1 for none and -2 for a tag that doesn't exist.

ROOT, UNKNOWN = -1, -2


def history_of(raw, payloads, words, encode):
    """Decode a history of which each text is an edit of its base (mostly)."""
    entries = []
    units = []  # of each entry, None where it's rejected
    good = []
    heads = []
    for i, r in enumerate(raw):
        payload = payloads[i] if i < len(payloads) else bytes((r, i))
        kind = r % 16
        if not good or kind == 15:
            base = ROOT
        elif kind == 14:
            base = UNKNOWN
        elif kind == 13:
            base = good[(r // 16) % len(good)]
        elif kind >= 10:
            base = heads[(r // 16) % len(heads)]
        else:
            base = heads[-1]
        if base == UNKNOWN:
            entries.append((UNKNOWN, b"rejected"))
            units.append(None)
            continue
        if base == ROOT or r // 16 == 15:
            new = [words[x % len(words)] for x in payload]
        elif r // 16 == 14 and len(good) > 1:  # back to an earlier text
            new = units[good[payload[0] % len(good)] if payload else good[0]]
        elif r // 16 == 13:
            new = units[base]
        else:
            new = texts.text_edit(units[base], payload, words)
        entries.append((base, encode(new)))
        units.append(new)
        good.append(i)
        if base in heads:
            heads.remove(base)
        heads.append(i)
    return entries


BYTE_WORDS = tuple(
    [bytes((c,)) for c in b"abcab\n\n"] + [b"\x00", b"\xff", b"\xc3", b"\x80", b"\r\n", b"ab", b"abc\n", b"\xfe\xff", b"\n\n"]
)


def _history(t):
    tokenizer, raw, payloads, plain = t
    if tokenizer in ("null", "line") and not plain:
        return tokenizer, history_of(raw, payloads, BYTE_WORDS, b"".join)
    words = texts.PLAIN if plain else texts.WORDS
    return tokenizer, history_of(raw, payloads, words, lambda u: "".join(u).encode("utf-8"))


def histories(lo=1, hi=14, payload=24):
    return st.tuples(
        st.sampled_from(texts.KINDS),
        gen.sized((lo, 5), (5, hi)),
        st.lists(st.binary(max_size=payload), min_size=hi, max_size=hi),
        st.booleans(),
    ).map(_history)


def play(store, history, style, after=None):
    """Add everything in the history to the store.  Returns {tag: (contents,
    base tag)} and the tags that are the newest of their branch."""
    model = {}
    heads = []
    for i, (base, contents) in enumerate(history):
        tag = tag_of(style, i)
        require(tag not in store, "a tag is in the store before it's added", tag)
        if i % 3 != 1:
            require(store.get(tag) is None, "contents of a tag that's yet to be added", tag)
            require(store.version_info(tag) is None, "information about a tag that's yet to be added", tag)
        if base == UNKNOWN:
            missing = "not in the store"
            try:
                store.add(tag, contents, missing)
            except KeyError:
                pass
            else:
                require(False, "adding to an unknown base was accepted", tag)
            require(tag not in store and store.get(tag) is None, "a rejected version is in the store", tag)
            require(missing not in store, "an unknown base is in the store")
        else:
            base_tag = None if base == ROOT else tag_of(style, base)
            if base_tag is None:
                store.add(tag, contents)
            else:
                store.add(tag, contents, base_tag)
            model[tag] = (contents, base_tag)
            if base_tag in heads:
                heads.remove(base_tag)
            heads.append(tag)
        if after is not None:
            after(i, model, heads)
    return model, heads


# ------------------------------------------------------------------ C22

C22 = prop(
    "C22",
    "A case is a history of additions (mostly to the newest version, also to the newest of other branches, to superseded versions, "
    "without a base and to unknown tags) with a tokenizer, a storage and tags; texts are edits of their base, earlier or unrelated "
    "texts, with any bytes where the tokenizer takes any. Non-trivial: at least four versions stored. Oracle: dictionary of what was "
    "stored, compared after every addition.",
)


def check_contents(store, model, when):
    for tag, (contents, _) in model.items():
        require(tag in store, "a stored version is missing", when, tag)
        got = store.get(tag)
        require(got == contents and type(got) is bytes, "a stored version has changed", when, tag, got, contents)


def check_absent(store, history, style):
    for unknown in ("no such tag", tag_of(style, len(history)), tag_of("plain", 99999)):
        require(unknown not in store, "unknown tag in store", unknown)
        require(store.get(unknown) is None, "contents of an unknown tag", unknown)


def note_history(history, model, heads, note):
    note.nontrivial(len(model) >= 4)
    bases = [b for b, _ in history if b >= 0]
    note("several roots" if sum(b == ROOT for b, _ in history) > 1 else "one root")
    if len(set(bases)) < len(bases):
        note("branch from superseded")
    if len(model) < len(history):
        note("rejected addition")


@C22.random(
    "history",
    lambda tier: st.tuples(
        histories(),
        st.sampled_from(("memory", "memory", "database", "file")),
        st.sampled_from(("plain", "odd", "hashable", "reverse")),
    ),
    quick=1600,
    thorough=60000,
)
def _(case, note):
    (tokenizer, history), backend, style = case
    if backend != "memory" and style == "hashable":
        style = "odd"
    note(f"{tokenizer} {backend}")
    with Database("memory" if backend == "database" else backend) as database:
        store = new_store(backend, tokenizer, database)
        model, heads = play(store, history, style, lambda i, m, h: check_contents(store, m, f"after addition {i}"))
        # Reading changes nothing.
        check_contents(store, model, "read again")
        check_absent(store, history, style)
    note_history(history, model, heads, note)


class Alternating:
    """Store objects on the same storage, of which each operation uses the next one."""

    def __init__(self, stores):
        self.stores = stores

    def __getattr__(self, name):
        self.stores.append(self.stores.pop(0))
        return getattr(self.stores[0], name)

    def __contains__(self, tag):
        return self.__getattr__("__contains__")(tag)


@C22.random(
    "storages",
    lambda tier: st.tuples(histories(), st.tuples(st.booleans(), st.booleans(), st.booleans()), st.sampled_from(("memory", "file")), st.integers(1, 3)),
    quick=600,
    thorough=20000,
)
def _(case, note):
    """Any combination of storages, and several store objects on them."""
    (tokenizer, history), kept, kind, count = case
    with Database(kind) as database:
        heads = DBCollection("heads", database.factory) if kept[0] else {}
        diffs = DBCollection("diffs", database.factory) if kept[1] else {}
        tree = DBTree(database.factory) if kept[2] else MemoryTree()
        store = Alternating([Versions(head_version=heads, diffs=diffs, tree=tree, tokenizer_factory=TOKENIZERS[tokenizer]) for _ in range(count)])
        model, newest = play(store, history, "odd", lambda i, m, h: check_contents(store, m, f"after addition {i}"))
        check_contents(Versions(head_version=heads, diffs=diffs, tree=tree, tokenizer_factory=TOKENIZERS[tokenizer]), model, "by a new store object")
        check_absent(store, history, "odd")
    note(f"{'database' if kept[0] else 'memory'}, {'database' if kept[1] else 'memory'}, {'database' if kept[2] else 'memory'}")
    note(f"{count} store objects")
    note_history(history, model, newest, note)


@C22.random(
    "own tokenizers",
    lambda tier: st.tuples(
        histories(), st.sampled_from(own.KINDS), st.booleans(), st.booleans(), st.sampled_from(("memory", "database")),
    ),
    quick=400,
    thorough=15000,
)
def _(case, note):
    """A user's tokenizer gives tokens of any kind, in a list or a tuple."""
    (_, history), kind, as_list, wrapped, backend = case
    with Database() as database:
        store = new_store(backend, own.factory(kind, as_list, wrapped), database)
        model, heads = play(store, history, "plain", lambda i, m, h: check_contents(store, m, f"after addition {i}"))
        check_contents(store, model, "read again")
    note_history(history, model, heads, note)
    note(f"{kind} {'list' if as_list else 'tuple'}")


def long_history(n, seed, words):
    """n versions of a text, each a small edit of the one before it."""
    x = seed + 1
    units = [words[(i * 7 + seed) % len(words)] for i in range(30)]
    out = []
    for i in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        units = texts.text_edit(units, (x >> 20).to_bytes(6, "big")[:6], words)
        if len(units) > 60:
            del units[x % 20 : x % 20 + 30]
        out.append((i - 1, "".join(units).encode("utf-8")))
    return out


@C22.random(
    "long",
    lambda tier: st.tuples(
        st.sampled_from(texts.KINDS), st.sampled_from(("memory", "database")), st.integers(40, 90), st.integers(0, 1 << 32)
    ),
    quick=24,
    thorough=800,
)
def _(case, note):
    tokenizer, backend, n, seed = case
    history = long_history(n, seed, texts.PLAIN if seed % 2 else texts.WORDS)
    with Database() as database:
        store = new_store(backend, tokenizer, database)

        def after(i, model, heads):
            if i % 16 == 15:
                check_contents(store, model, f"after addition {i}")

        model, heads = play(store, history, "plain", after)
        check_contents(store, model, "at the end")
    note_history(history, model, heads, note)


def large_text(tokenizer, seq, distinct):
    """Contents with a unit for each token; lines may all be different."""
    if tokenizer == "null":
        return bytes(seq)
    if tokenizer == "char":
        return gen.letters(seq).encode("utf-8")
    if tokenizer == "line":
        near = 6 if distinct else 1  # With the tokens before it, hardly any line is there twice.
        return b"".join(bytes(seq[max(0, i - near) : i]).hex().encode() + b" %d\n" % t for i, t in enumerate(seq))
    return "".join(f"w{t} " if t % 2 else f"w{t}\r\n" for t in seq).encode("utf-8")


def check_large(tokenizer, backend, contents, bases, note):
    history = [(min(b, i - 1), c) for i, (b, c) in enumerate(zip(bases, contents))]
    with Database() as database:
        store = new_store(backend, tokenizer, database)
        model, heads = play(store, history, "plain", lambda i, m, h: check_contents(store, m, f"after addition {i}"))
    note_history(history, model, heads, note)
    note(f"{tokenizer} {backend}")


def longer_history(n, seed, words):
    """As above, with branches: now and then from a superseded version or from
    the newest of another branch, from none or with an unrelated text."""
    r = random.Random(seed)
    out = []
    units = {}
    heads = []
    branchy = r.choice((0, 0.02, 0.2))
    for i in range(n):
        base = heads[-1] if heads else ROOT
        if heads and r.random() < branchy:
            base = r.choice((ROOT, r.randrange(i), r.choice(heads), heads[-1]))
        if base == ROOT or r.random() < 0.02:
            new = [r.choice(words) for _ in range(r.randrange(40))]
        else:
            new = texts.text_edit(units[base], r.randbytes(6), words)
            if len(new) > 60:
                at = r.randrange(20)
                del new[at : at + 30]
        units[i] = new
        if base in heads:
            heads.remove(base)
        heads.append(i)
        out.append((base, "".join(new).encode("utf-8")))
    return out


longer = st.tuples(
    st.sampled_from(texts.KINDS),
    st.one_of(
        st.tuples(st.just("memory"), st.sampled_from((130, 270, 520, 1030))),
        st.tuples(st.just("database"), st.sampled_from((110, 130, 260))),
    ),
    st.integers(0, 20), st.integers(0, 1 << 32),
)


@C22.random("longer", lambda tier: longer, quick=12, thorough=400)
def _(case, note):
    tokenizer, (backend, n), extra, seed = case
    n += extra
    history = longer_history(n, seed, texts.PLAIN if seed % 2 else texts.WORDS)
    with Database() as database:
        store = new_store(backend, tokenizer, database)

        def after(i, model, heads):
            if i % 64 == 63:
                some = [t for j, t in enumerate(model) if (j * 7 + i) % 11 == 0 or j > i - 4]
                check_contents(store, {t: model[t] for t in some}, f"after addition {i}")

        model, heads = play(store, history, "plain", after)
        check_contents(store, model, "at the end")
    note_history(history, model, heads, note)
    note(f"{backend} {n // 100}00s")


@C22.random(
    "large",
    lambda tier: st.tuples(
        st.sampled_from(texts.KINDS), st.sampled_from(("memory", "database")), st.booleans(),
        st.tuples(st.integers(0, 5), st.sampled_from((2, 26, 250)), st.sampled_from((241, 300, 600, 2290, 2600, 5000)), gen.raw(1, 8)),
        st.lists(gen.raw(0, 12), min_size=1, max_size=5), gen.raw(6, 6),
    ),
    quick=64,
    thorough=2400,
)
def _(case, note):
    tokenizer, backend, distinct, (kind, k, n, seed), scripts, raw = case
    seqs = [gen.stretched(kind, k, n, seed)]
    for s in scripts:
        seqs.append(gen.edit_far(seqs[-1], s, k))
    bases = [ROOT] + [i if r < 200 else r % (i + 1) for i, r in enumerate(raw)]
    check_large(tokenizer, backend, [large_text(tokenizer, s, distinct) for s in seqs], bases, note)


def giant_texts(tokenizer, spec):
    """Contents with a unit for each token."""
    seqs = giant.expand(spec)
    if tokenizer == "line":
        return ["".join(f"line {ord(c)} {ord(c) % 7}\n" for c in s).encode() for s in seqs]
    if tokenizer == "symbol":
        return ["".join(f"w{ord(c)} " if ord(c) % 2 else f"w{ord(c)}\n" for c in s).encode() for s in seqs]
    if tokenizer == "char":
        return [s.encode("utf-8") for s in seqs]
    return [bytes(ord(c) % 256 for c in s) for s in seqs]


@C22.random(
    "giant",
    lambda tier: st.tuples(
        st.sampled_from(texts.KINDS), st.sampled_from(("memory", "database")), giant.specs(3, 20200), st.integers(0, 5)
    ),
    quick=32,
    thorough=1000,
)
def _(case, note):
    tokenizer, backend, spec, shape = case
    contents = giant_texts(tokenizer, spec)
    check_large(tokenizer, backend, contents + contents[:1], [ROOT, shape % 2 - shape // 5, shape // 2, 2], note)


BLOCKS = (0, 1, 300, 70_000, 140_000, 270_000, 1_100_000, 2_200_000, 4_300_000, 17_000_000)


@C22.random(
    "megabytes",
    lambda tier: st.tuples(
        st.sampled_from(("memory", "database", "file")),
        st.lists(st.tuples(st.sampled_from(BLOCKS), st.lists(st.integers(0, 3), min_size=4, max_size=4)), min_size=1, max_size=5),
        st.integers(0, 5), st.booleans(),
    ),
    quick=24,
    thorough=600,
    cpu_s=300,
)
def _(case, note):
    """Large contents of a few lines, some of which are missing or differ
    from version to version."""
    backend, blocks, shape, newline = case
    contents = [[], [], [], []]
    left = 20_000_000
    for j, (size, variants) in enumerate(blocks):
        size = size if size <= left else 7
        left -= size
        for i, v in enumerate(variants):
            if v < 3:
                contents[i].append(b"%d %d " % (j, v % 2) + b"line %d " % j * (size // 7) + b"\n")
    contents = [b"".join(c)[: None if newline else -1] for c in contents]
    check_large("line", backend, contents, [ROOT, shape % 2 - shape // 5, shape // 2, 2], note)


@C22.exhaustive(
    "offsets",
    lambda tier: [(t, 2280) for t in texts.KINDS] + [("null", 67810), ("line", 67810)]
    + ([(t, n) for t in texts.KINDS for n in (232, 65530, 67830, 200000)] if tier == "thorough" else []),
    cpu_s=300,
)
def _(case, note):
    """Offsets of patches on both sides of the edges of their encodings."""
    tokenizer, n = case
    base = gen.pseudo_random(n, b"offsets", 26)
    edited = base[: n - 20] + bytes((30, 31)) + base[n - 20 :] + bytes(range(40, 90))
    more = edited[:100] + edited[110:]
    check_large(tokenizer, "memory", [large_text(tokenizer, s, True) for s in (base, edited, more)], [ROOT, 0, 1], note)


@C22.exhaustive(
    "every",
    lambda tier: (
        (tokenizer, backend, n, shape)
        for tokenizer in texts.KINDS
        for backend in ("memory", "database")
        for n in range(1, 5 if tier == "quick" else 6)
        for shape in range(math.factorial(n + 1) // 2)
    ),
)
def _(case, note):
    """Every tree of bases with n further versions, and repetitive texts."""
    tokenizer, backend, n, shape = case
    contents = (b"a\n", b"b a\n", b"", b"a\nb a\na\n", b"a\n", b"a\nb")
    history = [(ROOT, contents[0])]
    for i in range(1, n + 1):
        shape, base = divmod(shape, i + 1)
        history.append((base - 1, contents[i % len(contents)]))
    with Database() as database:
        store = new_store(backend, tokenizer, database)
        model, heads = play(store, history, "plain", lambda i, m, h: check_contents(store, m, f"after addition {i}"))
    note_history(history, model, heads, note)


@C22.random(
    "refused",
    lambda tier: st.tuples(
        histories(2, 9, 18).filter(lambda h: h[0] in ("char", "symbol")),
        st.sampled_from(("memory", "database")),
        st.integers(0, 8),
        st.binary(max_size=4),
    ),
    quick=240,
    thorough=8000,
)
def _(case, note):
    """Contents that the tokenizer can't decode can't be added to a version,
    which leaves everything stored before as it was."""
    (tokenizer, history), backend, at, junk = case
    with Database() as database:
        store = new_store(backend, tokenizer, database)
        refused = []

        def after(i, model, heads):
            if heads and i % 9 == at:
                tag = f"undecodable {i}"
                try:
                    store.add(tag, junk + b"\xff", heads[0])
                except UnicodeDecodeError:
                    refused.append(tag)
                except KeyError:
                    require(False, "the base isn't known", heads[0])
            check_contents(store, model, f"after addition {i}")

        model, heads = play(store, history, "plain", after)
    note("refused" if refused else "accepted")
    note_history(history, model, heads, note)


# ------------------------------------------------------------------ C23

C23 = prop(
    "C23",
    "A case is a history of one to several branches that grow in turn, applied to an in-memory tree and to a database tree the way the "
    "store does, with and without moving the split; or a history of whole stores. After every step the trees are compared: membership, "
    "paths to all tags, splits for all heads, and bases. Non-trivial: at least six tags. Oracle: each is the other's.",
)


def tree_view(tree, tags, heads):
    view = {}
    for tag in tags:
        path = tree.path_to(tag)
        view[tag] = (tag in tree, tuple(path) if path else (), tree.base_version(tag))
    splits = {}
    for head in heads:
        split, path = tree.get_split(head)
        splits[head] = (split, tuple(path))
        if isinstance(path, list):
            path.clear()  # It belongs to the caller.
    return view, splits


def grow(tree, tag, base, move_split):
    tree.add(tag, base)
    if base is not None:
        split, path = tree.get_split(base)
        if move_split and split != base:
            tree.change_parent(split, tag)
        tree.change_parent(base, tag)
        return split, tuple(path)


def check_trees(steps, style, kind, note, every):
    with Database(kind) as database:
        memory, db = MemoryTree(), DBTree(database.factory)
        tags, heads = [], []
        for i, (branch, move_split) in enumerate(steps):
            tag = tag_of(style, i)
            require(tag not in memory and tag not in db, "a tag is there before it's added", tag)
            for tree in (memory, db):
                require(not tree.path_to(tag), "path to an unknown tag", tag, tree)
            if branch >= len(heads):
                base = None
                heads.append(tag)
            else:
                base = heads[branch]
                heads[branch] = tag
            got, expected = grow(db, tag, base, move_split), grow(memory, tag, base, move_split)
            require(got == expected, "different splits", tag, got, expected)
            tags.append(tag)
            if i % every == every - 1 or i == len(steps) - 1:
                got, expected = tree_view(db, tags, heads), tree_view(memory, tags, heads)
                require(got == expected, f"different trees after {i + 1} additions", got, expected)
    note.nontrivial(len(tags) >= 6)
    note(f"{min(len(heads), 4)} branches")


def _steps(raw):
    """The first byte decides how mixed the history is."""
    if not raw:
        return []
    mode = raw[0] % 4
    branches = 1 + raw[0] // 4 % 4
    steps = []
    for r in raw[1:]:
        move = mode != 1 if mode != 2 else bool(r & 128)
        steps.append((r % branches, move))
    return steps


@C23.random(
    "trees",
    lambda tier: st.tuples(
        gen.sized((2, 12), (8, 40)), st.sampled_from(("plain", "odd", "reverse")), st.sampled_from(("memory", "memory", "file"))
    ).map(lambda t: (_steps(t[0]), *t[1:])),
    quick=640,
    thorough=25000,
)
def _(case, note):
    steps, style, kind = case
    check_trees(steps, style, kind, note, 1 if len(steps) < 16 else 5)


@C23.exhaustive(
    "interleavings",
    lambda tier: (
        [(b, True) for b in seq] for seq in gen.all_sequences(3, 7 if tier == "quick" else 9)
    ),
)
def _(case, note):
    check_trees(case, "reverse", "memory", note, 1)


@C23.exhaustive(
    "chains", lambda tier: [(n, m) for n in ((70, 90, 111, 130) if tier == "quick" else range(60, 300, 7)) for m in (True, False)]
)
def _(case, note):
    n, move = case
    check_trees([(0, move)] * n, "plain", "memory", note, 40)


@C23.random(
    "longer",
    lambda tier: st.tuples(
        st.sampled_from((130, 140, 260, 300, 530)), st.integers(0, 1 << 32), st.sampled_from(("plain", "reverse")), st.booleans()
    ),
    quick=24,
    thorough=800,
)
def _(case, note):
    n, seed, style, move = case
    r = random.Random(seed)
    branches = r.choice((1, 1, 2, 6, n))
    # Mostly one branch grows at a time.
    steps = []
    branch = 0
    for _ in range(n):
        if r.random() < 0.1:
            branch = r.randrange(branches)
        steps.append((branch, move or r.random() < 0.9))
    check_trees(steps, style, "memory", note, 130)


@C23.exhaustive(
    "very-long",
    lambda tier: [(2100, 3), (4200, 2), (8300, 1)] + [(16500, 1), (33000, 7)] * (tier == "thorough"),
    cpu_s=1200,
)
def _(case, note):
    """Runs of additions to one branch and another."""
    n, branches = case
    check_trees([(min(i // 50, i // 7 % branches), True) for i in range(n)], "plain", "memory", note, n // 2 + 1)


def check_stores(tokenizer, history, style):
    with Database() as database:
        stores = [new_store(b, tokenizer, database) for b in ("memory", "database")]
        model, heads = [play(s, history, style) for s in stores][0]
        for tag in list(model) + ["no such tag"]:
            views = [
                (tag in s, s.get(tag), tuple(s.tree.path_to(tag) or ()), vars(i) if (i := s.version_info(tag)) else i)
                for s in stores
            ]
            require(views[0] == views[1], "stores differ", tag, *views)
    return model


@C23.random(
    "longer-stores",
    lambda tier: st.tuples(st.sampled_from(texts.KINDS), st.sampled_from((60, 110, 130, 260)), st.integers(0, 1 << 32)),
    quick=12,
    thorough=400,
)
def _(case, note):
    tokenizer, n, seed = case
    model = check_stores(tokenizer, longer_history(n, seed, texts.PLAIN if seed % 2 else texts.WORDS), "plain")
    note.nontrivial(len(model) >= 6)


@C23.random(
    "giant-stores",
    lambda tier: st.tuples(st.sampled_from(texts.KINDS), giant.specs(3, 10100), st.integers(0, 5)),
    quick=16,
    thorough=500,
)
def _(case, note):
    tokenizer, spec, shape = case
    contents = giant_texts(tokenizer, spec)
    model = check_stores(tokenizer, list(zip((ROOT, 0, shape % 2, shape // 2), contents + contents[:1])), "odd")
    note.nontrivial(len(model) >= 3)


@C23.random(
    "stores",
    lambda tier: st.tuples(histories(), st.sampled_from(("plain", "odd"))),
    quick=400,
    thorough=16000,
)
def _(case, note):
    (tokenizer, history), style = case
    model = check_stores(tokenizer, history, style)
    note.nontrivial(len(model) >= 6)


# ------------------------------------------------------------------ C24

C24 = prop(
    "C24",
    "A case is a history of additions, as in C22, or a chain of a given length, with the tree alone or the whole store. Non-trivial: "
    "some version is two or more patches away from where it's stored whole. Oracle: bounds computed from the model of the history; "
    "longest common run by dynamic programming.",
)


def depth_bound(n):
    return 2 * math.sqrt(n) + 1


@C24.exhaustive(
    "depth",
    lambda tier: (
        [("memory", n, 1) for n in range(1, 25)]
        + [("database", n, 1) for n in (10, 24)]
        + [("memory", 300, 20), ("memory", 1500, 500), ("database", 110, 37)]
        + ([("memory", 6000, 1000), ("database", 500, 100)] if tier == "thorough" else [])
    ),
)
def _(case, note):
    backend, n, every = case
    with Database() as database:
        tree = MemoryTree() if backend == "memory" else DBTree(database.factory)
        base = None
        for i in range(n):
            grow(tree, i if backend == "memory" else str(i), base, True)
            base = i if backend == "memory" else str(i)
            if i % every == every - 1 or i == n - 1:
                for tag in range(i + 1):
                    tag = tag if backend == "memory" else str(tag)
                    path = tree.path_to(tag)
                    require(path[0] == base and path[-1] == tag, "a path doesn't lead from the head to the tag", i + 1, tag, path)
                    require(len(path) - 1 <= depth_bound(i + 1), f"too long a path among {i + 1} versions", tag, path)
                    require(len(set(path)) == len(path), "a path with repetitions", i + 1, tag, path)
                    note.nontrivial(len(path) > 2)
                require(len(tree.path_to(base)) == 1, "the newest version needs patches", i + 1)


def check_info(store, tokenizer, model, heads, note):
    size = {}  # versions in each tree
    paths = {}
    for tag in model:
        path = paths[tag] = store.tree.path_to(tag)
        require(path[0] in heads and path[-1] == tag, "a path doesn't lead from a head to the tag", tag, path)
        size[path[0]] = size.get(path[0], 0) + 1
    for tag, (contents, base) in model.items():
        path = paths[tag]
        require(len(path) - 1 <= depth_bound(size[path[0]]), "too long a path", tag, path, size[path[0]])
        info = store.version_info(tag)
        require(info is not None, "no information about a stored version", tag)
        require(info.base_version == base, "wrong base version", tag, info, base)
        if tag in heads:
            require(len(path) == 1, "the newest version of a branch needs patches", tag, path)
            require(
                info.token_count == len(contents) and info.change_count == 0,
                "the newest version of a branch isn't reported whole", tag, info, len(contents),
            )
            continue
        require(len(path) > 1, "a superseded version is stored whole", tag)
        patch = tuple(deserialize_changeset(store.diffs[tag]))
        held = sum(len(part) for part in patch if not isinstance(part, slice))
        require(
            (info.token_count, info.change_count) == (held, len(patch)), "other counts are reported than those of the patch", tag, info, held, patch
        )
        require(0 <= info.token_count <= len(contents), "a patch holds more than its text", tag, info, len(contents))
        stored_against = model[path[-2]][0]
        if contents == stored_against:
            require(info.token_count == 0, "an unchanged version takes tokens", tag, info)
        if contents:
            require(info.change_count >= 1, "text without changes", tag, info)
        else:
            require(info.change_count == 0, "changes without text", tag, info)
        if tokenizer == "null":
            small = len(contents) * len(stored_against) < 40000
            shared = (oracle if small else giant).lcs_length(contents, stored_against)
            require(
                info.token_count <= len(contents) - shared,
                "a patch repeats what both versions have", tag, info, contents, stored_against, shared,
            )
        note.nontrivial(len(path) > 2)
    for unknown in ("no such tag", tag_of("plain", 99999)):
        require(store.version_info(unknown) is None, "information about an unknown tag", unknown)
    # The collections given to the store hold the newest versions of branches,
    # whole, and a patch for each other version.
    whole, patches = set(store.head_version), set(store.diffs)
    require(whole == set(heads), "other versions are stored whole than the newest of each branch", whole, heads)
    require(patches == set(model) - set(heads), "other versions are stored as patches than the superseded ones", patches, heads)


@C24.random(
    "info",
    lambda tier: st.tuples(
        histories(), st.sampled_from(("memory", "memory", "database")), st.sampled_from(("plain", "odd", "hashable"))
    ),
    quick=1200,
    thorough=48000,
)
def _(case, note):
    (tokenizer, history), backend, style = case
    if backend != "memory" and style == "hashable":
        style = "odd"
    with Database() as database:
        store = new_store(backend, tokenizer, database)
        model, heads = play(
            store, history, style, lambda i, m, h: check_info(store, tokenizer, m, h, note)
        )


@C24.random(
    "long",
    lambda tier: st.tuples(
        st.sampled_from(texts.KINDS), st.sampled_from(("memory", "database")), st.integers(40, 90), st.integers(0, 1 << 32)
    ),
    quick=16,
    thorough=640,
)
def _(case, note):
    tokenizer, backend, n, seed = case
    history = long_history(n, seed, texts.PLAIN if seed % 2 else texts.WORDS)
    with Database() as database:
        store = new_store(backend, tokenizer, database)
        model, heads = play(store, history, "plain")
        check_info(store, tokenizer, model, heads, note)


@C24.random("longer", lambda tier: longer, quick=12, thorough=400)
def _(case, note):
    tokenizer, (backend, n), extra, seed = case
    history = longer_history(n + extra, seed, texts.PLAIN if seed % 2 else texts.WORDS)
    with Database() as database:
        store = new_store(backend, tokenizer, database)
        model, heads = play(store, history, "plain")
        check_info(store, tokenizer, model, heads, note)


@C24.random(
    "giant",
    lambda tier: st.tuples(
        st.sampled_from(("null",) + texts.KINDS), st.sampled_from(("memory", "database")), giant.specs(3, 20200), st.integers(0, 5)
    ),
    quick=32,
    thorough=1000,
)
def _(case, note):
    tokenizer, backend, spec, shape = case
    contents = giant_texts(tokenizer, spec)
    history = list(zip((ROOT, 0, shape % 2, shape // 2), contents + contents[:1]))
    with Database() as database:
        store = new_store(backend, tokenizer, database)
        model, heads = play(store, history, "plain")
        check_info(store, tokenizer, model, heads, note)
    if len(history) > 2:
        note.nontrivial()


# ------------------------------------------------------------------ C25

C25 = prop(
    "C25",
    "A case is a history of snapshots, each a change of its base snapshot (or with none): names appear, disappear, reappear, are renamed "
    "or copied, contents change or return to earlier ones; with a tokenizer and a storage. Non-trivial: at least three snapshots and "
    "six files. Oracle: dictionaries of manifests and contents.",
)

NAMES = (
    "a", "b", "a/b", "", "é", "e\u0301", "\n", ",\n", "\":\"", "\\", "{", "\U0001f600", "\ud800", "a b", "b.c", "\x00", "0", "null",
    "a\"", "\u2028", "c", "d",
)


FILE_TAGS = tuple(name for name in NAMES if name not in ("\ud800", "\x00"))


def _snapshots(t):
    tokenizer, raws, plain = t
    any_bytes = tokenizer in ("null", "line") and not plain
    words = BYTE_WORDS if any_bytes else texts.PLAIN if plain else texts.WORDS
    encode = b"".join if any_bytes else lambda u: "".join(u).encode("utf-8")
    out = []  # (base index or -1, manifest, contents of new tags)
    units = {}
    for i, raw in enumerate(raws):
        kind = raw[0] if raw else 0
        if not out or kind % 8 == 7:
            base = -1
        elif kind % 8 == 6:
            base = kind // 8 % len(out)
        else:
            base = len(out) - 1
        manifest = dict(out[base][1]) if base >= 0 else {}
        new = {}

        def fresh(u):
            tag = f"c{len(units)}" if kind % 3 else f"c{len(units)}:é\n\""
            if kind % 5 == 4:
                # Files may have names that are tags of others.
                tag = next((name for name in FILE_TAGS[arg % 4 :] if name not in units), tag)
            units[tag] = u
            new[tag] = encode(u)
            return tag

        at = 1
        while at + 3 <= len(raw):
            op, name, arg = raw[at : at + 3]
            at += 3
            name = NAMES[name % (8 if plain else len(NAMES))]
            payload = raw[at : at + arg % 7]
            op %= 8
            if op <= 1 or (op <= 4 and name not in manifest):  # new contents
                manifest[name] = fresh([words[x % len(words)] for x in payload])
                at += len(payload)
            elif op <= 4:  # edited contents
                manifest[name] = fresh(texts.text_edit(units[manifest[name]], payload, words))
                at += len(payload)
            elif op == 5:
                manifest.pop(name, None)
            elif op == 6 and manifest:  # rename or copy
                other = sorted(manifest)[arg % len(manifest)]
                manifest[name] = manifest[other]
                if arg % 2 and other != name:
                    del manifest[other]
            elif op == 7 and units:  # contents of any earlier file
                manifest[name] = sorted(units)[arg % len(units)]
        out.append((base, manifest, new))
    return tokenizer, out


@C25.random(
    "snapshots",
    lambda tier: st.tuples(
        st.tuples(
            st.sampled_from(texts.KINDS), st.lists(gen.sized((0, 8), (6, 40)), min_size=1, max_size=7), st.booleans()
        ).map(_snapshots),
        st.sampled_from(("memory", "memory", "database")),
        st.booleans(),
    ),
    quick=1600,
    thorough=64000,
)
def _(case, note):
    (tokenizer, snapshots), backend, sparse = case
    with Database() as database:
        store = new_store(backend, tokenizer, database)
        contents = {}
        manifests = {}
        bases = {}
        for i, (base, manifest, new) in enumerate(snapshots):
            tag = f"m{i}"
            base_tag = None if base < 0 else f"m{base}"
            contents.update(new)
            before, manifest = manifest, dict(manifest)
            # Contents of files that are stored already needn't be given.
            stored = {t for m in manifests.values() for t in m.values()}
            known = {t: c for t, c in contents.items() if t in manifest.values() and (not sparse or t not in stored)}
            add_manifest(tag, manifest, store, known, base_tag)
            require(manifest == before, "the manifest was changed", manifest, before)
            manifest.clear()  # It belongs to the caller.
            known.clear()
            manifests[tag] = before
            bases[tag] = base_tag
            for t, m in manifests.items():
                got = get_manifest(store, t)
                require(got == m, f"wrong manifest after {i + 1}", t, got, m)
                for name, file_tag in m.items():
                    data = store.get(got[name])
                    require(
                        data == contents[file_tag], f"wrong contents of a file after {i + 1}", t, name, data, contents[file_tag]
                    )
                if isinstance(got, dict):
                    got.clear()
        for t, b in bases.items():
            info = store.version_info(t)
            require(info is not None and info.base_version == b, "wrong base of a manifest", t, info, b)
    files = len({f for m in manifests.values() for f in m.values()})
    note.nontrivial(len(manifests) >= 3 and files >= 6)


@C25.random(
    "many-files",
    lambda tier: st.tuples(
        st.one_of(st.integers(20, 300), st.sampled_from((520, 1030, 5100, 10300))), st.lists(gen.raw(1, 12), min_size=1, max_size=5), st.sampled_from(("null", "line")),
        st.sampled_from(("memory", "database")),
    ),
    quick=40,
    thorough=1600,
)
def _(case, note):
    """Snapshots of many files of which a few change."""
    n, changes, tokenizer, backend = case
    if n > 2000:
        tokenizer, backend, changes = "line", "memory", changes[:2]
    manifest = {f"dir{i % 7}/file{i}": f"c{i}" for i in range(n)}
    contents = {f"c{i}": b"contents %d\n" % i * (i % 5) for i in range(n)}
    with Database() as database:
        store = new_store(backend, tokenizer, database)
        manifests = {}
        base = None
        for i, raw in enumerate([b""] + changes):
            manifest = dict(manifest)
            for j, r in enumerate(raw):
                names = sorted(manifest)
                name = names[r * len(names) // 256]
                if r % 4 == 0:
                    del manifest[name]
                elif r % 4 == 1:
                    manifest[f"new {i} {j}"] = manifest[names[-1]]
                else:
                    tag = f"c{i}-{j}"
                    contents[tag] = contents[manifest[name]] + b"changed %d\n" % j
                    manifest[name] = tag
            known = {t: contents[t] for t in manifest.values()}
            add_manifest(f"m{i}", manifest, store, known, base)
            base = f"m{i}"
            manifests[base] = manifest
        for tag, m in manifests.items():
            got = get_manifest(store, tag)
            require(got == m, "wrong manifest", tag, got, m)
            for name, file_tag in m.items():
                data = store.get(file_tag)
                require(data == contents[file_tag], "wrong contents of a file", tag, name, data, contents[file_tag])
    note.nontrivial(len(manifests) >= 3)


@C25.random(
    "long-histories",
    lambda tier: st.tuples(
        st.sampled_from((12, 30, 70, 140, 300)), st.integers(0, 1 << 16), st.sampled_from((8, 100, 254, 300, 1100, 5000)),
        st.sampled_from((0, 300, 5000, 70000)), st.sampled_from(("null", "line")), st.sampled_from(("memory", "database")),
    ),
    quick=32,
    thorough=1200, cpu_s=300,
)
def _(case, note):
    """Many snapshots of a few files with long names or contents."""
    n, seed, name_size, size, tokenizer, backend = case
    if tokenizer == "null":  # slow
        n, name_size, size = min(n, 140 if name_size < 100 else 30), min(name_size, 1100), min(size, 5000)
    r = random.Random(seed)
    shared = "".join(r.choice("abé /\n") for _ in range(name_size - 4))

    def new_name():
        digit = f"{r.randrange(4)}"
        return r.choice((shared + digit[: r.randrange(2)], "0" + shared, shared[: len(shared) // 2] + digit, digit))

    contents = {}

    def new_contents(old):
        tag = f"c{len(contents)}"
        if not old:
            lines = [b"line %d\n" % r.randrange(1000) for _ in range(r.choice((0, 1, 5, size // 8)) if len(contents) < 4 else 3)]
        else:
            lines = contents[old].splitlines(keepends=True)
            at = r.randrange(len(lines) + 1)
            lines[at : at + r.randrange(3)] = [b"new %d\n" % r.randrange(1000) for _ in range(r.randrange(3))]
        contents[tag] = b"".join(lines)
        return tag

    with Database() as database:
        store = new_store(backend, tokenizer, database)
        manifests = []
        for i in range(n):
            base = None if not i or r.random() < 0.03 else r.randrange(i) if r.random() < 0.2 else i - 1
            manifest = dict(manifests[base]) if base is not None else {}
            for _ in range(r.randrange(4)):
                name = new_name()
                kind = r.randrange(6)
                if kind == 0:
                    manifest.pop(name, None)
                elif kind == 1 and contents:
                    manifest[name] = f"c{r.randrange(len(contents))}"
                else:
                    manifest[name] = new_contents(manifest.get(name) if kind > 2 else None)
            known = {t: contents[t] for t in manifest.values()}
            add_manifest(f"m{i}", manifest, store, known, None if base is None else f"m{base}")
            manifests.append(manifest)
        for i, manifest in enumerate(manifests):
            got = get_manifest(store, f"m{i}")
            require(got == manifest, "wrong manifest", i, got, manifest)
        used = sorted({t for m in manifests for t in m.values()})
        for t in used if len(used) < 100 else r.sample(used, 100):
            data = store.get(t)
            require(data == contents[t], "wrong contents of a file", t, data, contents[t])
    note.nontrivial(n >= 30 and len(used) >= 6)


@C25.random(
    "documents",
    lambda tier: st.dictionaries(
        st.one_of(st.sampled_from(NAMES), st.text(max_size=5)), st.one_of(st.sampled_from(NAMES), st.text(max_size=5)), max_size=6
    ),
    quick=1600,
)
def _(manifest, note):
    doc = manifest_to_doc(manifest)
    require(type(doc) is bytes, "a manifest isn't stored as bytes", doc)
    got = doc_to_manifest(doc)
    require(got == manifest, "a manifest changed on the way to bytes and back", manifest, got)
    note.nontrivial(len(manifest) > 1)


# ------------------------------------------------------------------ C26

C26 = prop(
    "C26",
    "A case is a sequence of mapping operations (assignment, deletion, get, pop, setdefault, update, popitem, clear, membership, "
    "iteration, length, equality, views) on two collections in one database, which is in memory with one connection or in a file with a "
    "new connection each time. Keys are odd texts, values any bytes. Non-trivial: at least six operations with an overwritten or "
    "deleted key. Oracle: a dict for each collection.",
)

VALUES = (
    b"", b"\x00", b"a", b"\xff\xfe", b"a\x00b", b"0", b"1" * 300, "é".encode("utf-8"), bytes(range(256)), b"'", b"NULL",
    b"1" * 299 + b"2", b"x" * 5000 + b"a", b"x" * 5000 + b"b", b"x" * 70000 + b"a", b"x" * 70000 + b"b",
)


# Names that are alike in some respect.
TABLES = ("one", "two", "one_", "ones", "one1", "_one", "t" * 40, "t" * 41, "t" * 299 + "u", "t" * 300, "t" * 1200, "o_e", "data", "tag", "graph")


def _operations(raw):
    ops = []
    for i in range(0, len(raw) - 2, 3):
        op, key, value = raw[i : i + 3]
        ops.append((op % 20, op // 20 % 2, ODD_TAGS[key % (6 if op & 1 else len(ODD_TAGS))], VALUES[value % len(VALUES)]))
    return ops


OPERATIONS = {
    4: ("pop", lambda c, k, v: c.pop(k)),
    5: ("pop with default", lambda c, k, v: c.pop(k, v)),
    6: ("setdefault", lambda c, k, v: c.setdefault(k, v)),
    7: ("get", lambda c, k, v: c.get(k)),
    8: ("get with default", lambda c, k, v: c.get(k, v)),
    9: ("getitem", lambda c, k, v: c[k]),
    10: ("in", lambda c, k, v: k in c),
    11: ("len", lambda c, k, v: len(c)),
    12: ("keys", lambda c, k, v: sorted(c.keys())),
    13: ("items", lambda c, k, v: sorted(c.items())),
    14: ("values", lambda c, k, v: sorted(c.values())),
    15: ("update", lambda c, k, v: c.update({k: v, "a": v})),
    16: ("bool", lambda c, k, v: bool(c)),
    17: ("not in", lambda c, k, v: k not in c),
}


def outcome(collection, operation, key, value):
    try:
        return ("value", operation(collection, key, value))
    except KeyError:
        return ("KeyError",)


@C26.random(
    "operations",
    lambda tier: st.tuples(
        gen.sized((3, 30), (24, 120)).map(_operations), st.sampled_from(("memory", "file")),
        st.lists(st.sampled_from(TABLES), min_size=2, max_size=2, unique=True),
    ),
    quick=2400,
    thorough=96000,
)
def _(case, note):
    ops, kind, tables = case
    changed = False
    with Database(kind) as database:
        collections = [DBCollection(table, database.factory) for table in tables]
        models = [{}, {}]
        for i, (op, which, key, value) in enumerate(ops):
            c, m = collections[which], models[which]
            where = f"operation {i}"
            if op <= 1 or op >= 19:
                changed |= key in m
                c[key] = value
                m[key] = value
            elif op <= 3:
                changed |= key in m
                got = outcome(c, lambda x, k, v: x.__delitem__(k), key, value)
                expected = outcome(m, lambda x, k, v: x.__delitem__(k), key, value)
                require(got == expected, f"{where}: deletion", key, got, expected)
            elif op == 18 and value == b"":
                c.clear()
                m.clear()
            elif op == 18:
                try:
                    k, v = c.popitem()
                except KeyError:
                    require(not m, f"{where}: popitem found nothing", m)
                else:
                    require(k in m and m.pop(k) == v, f"{where}: popitem", k, v, m)
            else:
                name, operation = OPERATIONS[op]
                got, expected = outcome(c, operation, key, value), outcome(m, operation, key, value)
                require(got == expected, f"{where}: {name}", key, value, got, expected)
            if op <= 6 or op in (15, 18, 19):
                for x, y in zip(collections, models):
                    require(len(x) == len(y), f"wrong length after {where}", op, key, len(x), len(y))
                    content = {k: x[k] for k in x}
                    require(content == y, f"wrong contents after {where}", op, key, content, y)
                    require(all(type(v) is bytes for v in content.values()), "values aren't bytes", content)
                    require(key in x if key in y else key not in x, f"wrong membership after {where}", key)
        for x, y in zip(collections, models):
            require(isinstance(x, MutableMapping), "not a mutable mapping", type(x))
            require(dict(x) == y and x == y, "not equal to a dictionary", dict(x), y)
    note.nontrivial(changed and len(ops) >= 6)


@C26.random(
    "many",
    lambda tier: st.tuples(st.one_of(st.integers(200, 1500), st.sampled_from((4200, 10500, 70000))), st.one_of(st.integers(0, 200000), st.sampled_from((1 << 20, 3 << 20, 36 << 20))), gen.raw(0, 20), st.sampled_from(("memory", "file"))),
    quick=24,
    thorough=800,
)
def _(case, note):
    """Many keys, and large values."""
    n, size, raw, kind = case
    n = n if kind == "memory" else n // 10
    with Database(kind) as database:
        collection = DBCollection("many", database.factory)
        model = {}
        for i in range(n):
            model[f"key {i * 7919 % 100003}"] = b"%d" % i
        collection.update(model)
        for i, r in enumerate(raw):
            key = f"key {r * 7919 % 100003}"
            if key in model and r % 3 == 0:
                del collection[key], model[key]
            else:
                collection[key] = model[key] = bytes((r, i)) * (size // (i + 2))
        require(len(collection) == len(model) and dict(collection) == model, "wrong contents", len(collection), len(model))
        require(sorted(collection) == sorted(model), "wrong keys")
        require(all(k in collection for k in model) and "key" not in collection, "wrong membership")
    note.nontrivial(len(raw) > 2)


@C26.random(
    "texts and bytes",
    lambda tier: st.lists(
        st.tuples(st.text(st.characters(exclude_categories=("Cs",)), max_size=6), st.binary(max_size=12)), min_size=1, max_size=6
    ),
    quick=1200,
)
def _(items, note):
    with Database() as database:
        collection = DBCollection("some_table", database.factory)
        for key, value in items:
            collection[key] = value
        model = dict(items)
        got = {k: collection[k] for k in collection}
        require(got == model, "contents differ", got, model)
        for key in model:
            del collection[key]
            require(key not in collection and collection.get(key) is None, "still there after it was deleted", key)
        require(len(collection) == 0 and list(collection) == [], "not empty", list(collection))
    note.nontrivial(len(model) > 1)
