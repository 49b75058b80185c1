"""C30: operations that run at the same time."""

import sqlite3
import sys
import threading

import hypothesis.strategies as st

import gaspra
from gaspra import changesets, serialize, suffix_automaton as sa, tokenizers
from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
from gaspra.manifest import add_manifest, get_manifest
from gaspra.versions import Versions

from pbt import gen, texts
from pbt.core import REPO_SRC, Hang, Violation, prop, require
from pbt.props.diff import FACTORIES

C30 = prop(
    "C30",
    "A case is two to five operations with their texts, and a schedule. Operations whose results come piece by piece are advanced in turns as "
    "the schedule says, and some are abandoned; or all operations run in threads, and the schedule says after how many executed lines of the library "
    "it's another one's turn. Non-trivial: at least two operations were under way at once. Oracle: the same operations one after the other.",
    ["no object but a tokenizer is shared by operations that run at the same time; stores and databases are used by one of them each"],
)

# Operations are generators.  What they yield is their result.


def op_diff(p, a, b):
    yield from gaspra.diff_token_sequences(p, a)


def op_diff_tokens(p, a, b):
    yield from gaspra.diff_token_sequences(tuple(p), tuple(b))


def op_merge(p, a, b):
    yield from gaspra.merge_token_sequence(p, a, b)


def op_merge_bytes(p, a, b):
    yield from gaspra.merge_token_sequence(*(x.encode() for x in (p, a, b)))


def op_find(p, a, b):
    yield from gaspra.find_substring(p, a[:1])
    index = sa.build(p)
    yield
    yield from sa.find_substring_all(index, p[1:3])
    yield sa.find_substring(index, b)


def op_suffixes(p, a, b):
    root = sa.build(p[:30])
    yield
    for i, suffix in enumerate(sa.all_suffixes(root)):
        yield suffix


def op_lcs(p, a, b):
    first, second = sa.build(p), sa.build(a)
    yield
    yield sa.find_lcs(first, b)
    yield sa.find_lcs(second, b)
    yield gaspra.find_lcs(a, b)
    yield gaspra.find_lcs_multiple(p, a, b)


def op_patch(p, a, b):
    p, a = p.encode(), a.encode()
    stream = changesets.find_changeset(p, a).as_change_stream()
    patch = []
    for fragment in changesets.strip_forward(stream):
        patch.append(fragment)
        yield fragment
    data = serialize.serialize_changeset(patch)
    yield data
    again = []
    for fragment in serialize.deserialize_changeset(data):
        again.append(fragment)
        yield fragment
    yield changesets.apply(again, p)


def op_both_ways(p, a, b):
    changeset = changesets.find_changeset(p, b)
    forward, reverse = changeset.as_change_stream(), changeset.as_change_stream()
    yield from zip(changesets.strip_forward(forward), changesets.strip_reverse(reverse))
    yield changesets.apply_forward(changeset.as_change_stream(), p)
    yield changesets.apply_reverse(changeset.as_change_stream(), b)


def op_lines(p, a, b):
    yield from consolidated_line_diff(gaspra.diff_token_sequences(p, a))


def op_lines_of_merge(p, a, b):
    yield from to_line_diff(gaspra.merge_token_sequence(p, a, b))


def tokenizing(kind, what):
    def op(p, a, b, tokenizer=None):
        tokenizer = tokenizer or FACTORIES[kind]()
        if what == "diff":
            yield from tokenizers.diff(p, a, tokenizer)
        elif what == "merge":
            yield from tokenizers.merged(p, a, b, tokenizer)
        elif what == "lines":
            changes = gaspra.diff_token_sequences(tokenizer.encode(p), tokenizer.encode(b))
            yield from tokenizers.decode_and_line_diff_changes(changes, tokenizer)
        else:
            encoded = [tokenizer.encode(p)]
            yield
            encoded.append(tokenizer.encode(a))
            yield
            encoded.append(tokenizer.encode(b))
            for e in encoded:
                yield tokenizer.decode(e)

    return op


def storing(database, kind):
    def op(p, a, b):
        versions = [x.encode() for x in (p, a, b, a + p, b + a, p)]
        if database:
            connection = sqlite3.connect(":memory:")
            head, diffs, tree = DBCollection("head", lambda: connection), DBCollection("diff", lambda: connection), DBTree(lambda: connection)
            yield
            store = Versions(head_version=head, diffs=diffs, tree=tree, tokenizer_factory=FACTORIES[kind])
        else:
            store = Versions(tokenizer_factory=FACTORIES[kind])
        for i, v in enumerate(versions):
            store.add(str(i), v, str(i - 1 if i < 5 else 2) if i else None)
            yield
            yield store.get("0")
        for i in range(len(versions)):
            yield store.get(str(i))
            info = store.version_info(str(i))
            yield info.base_version, info.token_count, info.change_count
            yield tuple(store.tree.path_to(str(i)))
        add_manifest("m", {a: "0", b: "f"}, store, {"f": b.encode()}, None)
        yield
        add_manifest("n", {a: "f", b: "g", p: "1"}, store, {"g": a.encode()}, "m")
        yield get_manifest(store, "m")
        yield get_manifest(store, "n")
        yield store.get("g")

    return op


def collecting(p, a, b):
    """Two collections in one database."""
    connection = sqlite3.connect(":memory:")
    first, second = DBCollection("first", lambda: connection), DBCollection("second", lambda: connection)
    for i, key in enumerate(texts.lines(p) + texts.lines(a)):
        first[key] = str(i).encode()
        yield
        second[str(i)] = key.encode()
        yield len(first), len(second)
    yield sorted(first.items())
    yield [(k, l) for k in sorted(first) for l in sorted(second)]


SHARED = ("null", "char", "line", "symbol")  # in this order; these may share a tokenizer
OPERATIONS = (
    *(tokenizing(kind, what) for kind in SHARED for what in ("diff", "merge", "lines", "encode")),
    op_diff, op_diff_tokens, op_merge, op_merge_bytes, op_find, op_suffixes, op_lcs, op_patch, op_both_ways, op_lines, op_lines_of_merge,
    *(storing(database, kind) for database in (False, True) for kind in ("null", "line")),
    collecting,
)


def start(operation, tokenizers_of=None):
    which, seqs = operation
    if tokenizers_of is not None and which < 16:
        # The tokenizer with no state needs none.
        return OPERATIONS[which](*seqs, tokenizer=tokenizers_of[which // 4])
    return OPERATIONS[which](*seqs)


def alone(operation):
    return list(start(operation))


triple = st.one_of(
    texts.related(3, limits=((0, 6), (3, 12)), script=((0, 4), (2, 8))),
    gen.triples(limits=((0, 8), (4, 16))).map(lambda t: tuple("".join("ab\ncdefghijklmnopqrstuvwxyz"[x % 27] for x in s) for s in t)),
)
operations = st.lists(st.tuples(st.integers(0, len(OPERATIONS) - 1), triple), min_size=2, max_size=5).map(
    # Often the same operation, with other texts.
    lambda l: [(l[0][0], t) for _, t in l] if sum(w for w, _ in l) % 3 == 0 else l
)


@C30.random(
    "in turns", lambda tier: st.tuples(operations, gen.raw(0, 40), gen.raw(0, 5), st.booleans()), quick=6000
)
def _(case, note):
    ops, schedule, abandoned, share = case
    expected = [alone(o) for o in ops]
    shared = [FACTORIES[kind]() for kind in SHARED] if share else None
    running = [start(o, shared) for o in ops]
    got = [[] for _ in ops]
    done = [False] * len(ops)
    most = 0
    step = 0
    drop = {i: n for i, n in enumerate(abandoned) if n < 128}
    while not all(done):
        alive = [i for i, d in enumerate(done) if not d]
        i = alive[schedule[step % len(schedule)] % len(alive) if schedule else step % len(alive)]
        step += 1
        if len(got[i]) == drop.get(i, -1):
            running[i].close()
            done[i] = True
            continue
        try:
            got[i].append(next(running[i]))
        except StopIteration:
            done[i] = True
        most = max(most, sum(0 < len(got[j]) and not done[j] for j in range(len(ops))))
    for o, e, g, i in zip(ops, expected, got, range(len(ops))):
        if len(g) == drop.get(i, -1):
            e = e[: len(g)]
        require(g == e, "another result when in turns with other operations", case, o, g, e)
    for o, e in zip(ops, expected):
        require(alone(o) == e, "another result afterwards", case, o, alone(o), e)
    note.nontrivial(most > 1)
    for which, _ in ops:
        note(getattr(OPERATIONS[which], "__qualname__", "").split(".")[0])


class Stop(BaseException):
    pass


class Turns:
    """Runs functions in threads of which only one runs at a time, in turns
    given by a schedule: pairs of how many lines of the library are executed
    and which thread is next."""

    def __init__(self, functions, schedule):
        self.functions = functions
        self.schedule = schedule or [(1, 1)]
        self.turn = 0
        self.left = self.schedule[0][0]
        self.signals = [threading.Semaphore(0) for _ in functions]
        self.alive = list(range(len(functions)))
        self.finished = threading.Semaphore(0)
        self.results = [None] * len(functions)
        self.errors = [None] * len(functions)
        self.switches = 0
        self.stopped = False

    def next_turn(self):
        self.turn = (self.turn + 1) % len(self.schedule)
        self.left, pick = self.schedule[self.turn]
        return pick

    def trace(self, me):
        def local(frame, event, argument):
            if self.stopped:
                raise Stop()
            if event == "line":
                self.left -= 1
                if self.left <= 0:
                    pick = self.next_turn()
                    other = self.alive[(self.alive.index(me) + pick) % len(self.alive)]
                    if other != me:
                        self.switches += 1
                        self.signals[other].release()
                        self.signals[me].acquire()
                        if self.stopped:
                            raise Stop()
            return local

        def top(frame, event, argument):
            return local if frame.f_code.co_filename.startswith(REPO_SRC) else None

        return top

    def body(self, me):
        self.signals[me].acquire()
        if not self.stopped:
            try:
                sys.settrace(self.trace(me))
                try:
                    self.results[me] = self.functions[me]()
                finally:
                    sys.settrace(None)
            except Stop:
                return
            except BaseException as e:
                self.errors[me] = e
            self.alive.remove(me)
            if self.alive:
                pick = self.next_turn()
                self.signals[self.alive[pick % len(self.alive)]].release()
            else:
                self.finished.release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.functions))]
        for t in threads:
            t.start()
        try:
            self.signals[self.alive[0]].release()
            self.finished.acquire()
        except BaseException:
            self.stopped = True
            for s in self.signals:
                s.release()
            raise
        finally:
            for t in threads:
                t.join(5)
        for e in self.errors:
            if e is not None:
                raise e
        return self.results


@C30.random(
    "threads",
    lambda tier: st.tuples(operations, st.lists(st.tuples(st.one_of(st.integers(1, 8), st.integers(1, 200)), st.integers(1, 4)), max_size=20)),
    quick=1600,
)
def _(case, note):
    ops, schedule = case
    expected = [alone(o) for o in ops]
    turns = Turns([lambda o=o: alone(o) for o in ops], schedule)
    try:
        got = turns.run()
    except Hang:
        raise Violation("still running") from None
    for o, e, g in zip(ops, expected, got):
        require(g == e, "another result in a thread", case, o, g, e)
    for o, e in zip(ops, expected):
        require(alone(o) == e, "another result afterwards", case, o, alone(o), e)
    note.nontrivial(turns.switches > 1)
    note(f"{min(turns.switches, 64).bit_length()} bits of switches")
