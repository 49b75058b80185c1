"""C18 to C21: line-oriented diffs and the command-line tools."""

import contextlib
import importlib
import io
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import traceback

import hypothesis.strategies as st

import gaspra
from gaspra import merge_tool, tokenizers
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.types import Change

from pbt import bulk, gen, giant, texts
from pbt.core import CASE_CPU_S, REPO_SRC, Violation, prop, require
from pbt.props.diff import FACTORIES, has_change, side

# ------------------------------------------------------------------ C18

C18 = prop(
    "C18",
    "A case is two texts put together from words and line breaks (or every pair of short texts over two letters and a newline) and how "
    "they're compared: diffed by character, word or line, or merged as branches of a third text. Non-trivial: the line diff has a change with "
    "an unchanged and a changed part in one line, or at least two changes. Oracle: the texts themselves.",
)


def item_text(item, which):
    return item[which] if isinstance(item, Change) else item


def side_text(items, which):
    """Text of one side of a line-level change."""
    if isinstance(items, str):
        return items
    return "".join(item_text(i, which) for i in items)


def with_newline(text):
    return text + "\n" if text and not text.endswith("\n") else text


def whole_lines(text):
    return text == "" or text.endswith("\n")


def check_line_diff(source, new, old, note):
    """source: a diff or merge whose first sides give `new` and whose second
    sides give `old`."""
    result = list(consolidated_line_diff(iter(source)))
    interesting = check_lines(source, result, new, old)
    note.nontrivial(interesting or sum(isinstance(p, Change) for p in result) > 1)
    note(f"{min(sum(isinstance(p, Change) for p in result), 5)} changes")


def check_lines(source, result, new, old, joined=True):
    got = ["", ""]
    inner = [[], []]
    previous_changed = False
    interesting = False
    for p in result:
        changed = isinstance(p, Change)
        require(not (joined and changed and previous_changed), "neighbouring changes", source, result)
        previous_changed = changed
        for which in (0, 1):
            text = side_text(p[which], which) if changed else p
            require(whole_lines(text), "a side that isn't whole lines", source, result)
            got[which] += text
            if changed and not isinstance(p[which], str):
                parts = [i for i in p[which] if isinstance(i, Change)]
                inner[which] += [i[which] for i in parts if i[which]]
                interesting |= 0 < len(parts) < len(p[which])
    for which, expected in ((0, new), (1, old)):
        require(
            got[which] == with_newline(expected),
            f"version {which} can't be read back", source, result, got[which], expected,
        )
        fine = [p[which] for p in source if isinstance(p, Change) and p[which]]
        require(inner[which] == fine, f"the finer changes of version {which} differ", source, result, inner[which], fine)
    check_outside(source, result)
    return interesting


def check_outside(source, result):
    """Lines that lie within an unchanged piece (that isn't just white space) aren't part of a change,
    except for the first if one of the versions is in the middle of a line where the piece begins."""
    for which in (0, 1):
        plain = []  # for each character, whether it's outside of changes
        for p in result:
            text = side_text(p[which], which) if isinstance(p, Change) else p
            plain += [not isinstance(p, Change)] * len(text)
        at = 0
        starts = [True, True]
        for p in source:
            text = p[which] if isinstance(p, Change) else p
            if not isinstance(p, Change) and not p.isspace():
                lines = texts.lines(p)
                if not p.endswith("\n"):
                    lines = lines[:-1]
                begin = at
                for i, line in enumerate(lines):
                    if i > 0 or all(starts):
                        require(all(plain[begin : begin + len(line)]), f"the unchanged line {line!r} is part of a change", source, result)
                    begin += len(line)
            at += len(text)
            for v in (0, 1):
                t = p[v] if isinstance(p, Change) else p
                if t:
                    starts[v] = t.endswith("\n")


def compare(how, contents):
    """The comparison, and the versions its first and second sides give."""
    p, a, b = contents
    if how == "merge":
        source = list(gaspra.merge_token_sequence(p, a, b))
        return source, side(source, 0, ""), side(source, 1, "")
    source = list(tokenizers.diff(p, a, FACTORIES[how]()))
    return source, a, p


@C18.random(
    "texts",
    lambda tier: st.tuples(
        st.sampled_from(("null", "char", "symbol", "line", "merge")),
        texts.related(3, limits=((0, 8), (4, 30), (15, 50)), script=((0, 6), (3, 24))),
    ),
    quick=20000,
)
def _(case, note):
    how, contents = case
    source, new, old = compare(how, contents)
    check_line_diff(source, new, old, note)
    note(how)
    tokenizer = FACTORIES["null" if how == "merge" else how]()
    p, a, b = map(tokenizer.encode, contents)
    changes = gaspra.merge_token_sequence(p, a, b) if how == "merge" else gaspra.diff_token_sequences(p, a)
    result = list(tokenizers.decode_and_line_diff_changes(changes, tokenizer))
    check_lines(source, result, new, old, joined=False)


@C18.random(
    "long",
    lambda tier: st.tuples(st.sampled_from(("null", "char", "symbol", "line", "merge")), texts.long_related(3)),
    quick=800,
)
def _(case, note):
    how, contents = case
    source, new, old = compare(how, contents)
    check_line_diff(source, new, old, note)
    note(how)


@C18.random(
    "giant", lambda tier: st.tuples(st.sampled_from(("null", "char", "symbol", "line", "merge")), giant.text_specs(3)), quick=64, cpu_s=300
)
def _(case, note):
    how, spec = case
    source, new, old = compare(how, giant.expand_texts(spec))
    check_line_diff(source, new, old, note)
    note(how)


PIECES = (40, 150, 270, 420, 700, 1100, 2100, 4200, 8300, 10100)
LENGTHS = (0, 1, 2, 3, 6, 20, 150, 600, 1100, 2600, 4200, 8300, 16500, 33000, 66000, 101000)
BUDGET = 600_000  # characters


def pieces(spec):
    """A diff with many pieces or long ones."""
    n, longest, newlines, seed = spec
    r = random.Random(seed)
    left = BUDGET

    def text(least):
        nonlocal left
        n = max(least, r.choice(LENGTHS[: longest + 1]) + r.randrange(3) - 1)
        if n > left:
            n = r.randrange(least, 4)
        left -= n
        # Lines end in the piece, at its end, or both.
        kind = r.random()
        words = "".join(r.choice(("foo ", "x", "é", "(", "bar", " ")) for _ in range(n if n < 300 else 150))[:n]
        words += "y" * (n - len(words))
        if words and kind < newlines:
            places = [len(words) - 1] if kind < newlines / 2 else [r.randrange(len(words)) for _ in range(r.choice((1, 1, 2, 5)))]
            for at in places:
                words = words[:at] + "\n" + words[at + 1 :]
        return words

    result = []
    for i in range(n):
        if i % 2 == seed % 2:
            result.append(text(1))
        else:
            x, y = text(0), text(0)
            if not r.randrange(3):  # only in one version
                x, y = r.choice(((x, ""), ("", y)))
            result.append(Change(x, y) if x != y else Change(x + "z", y))
    return result


@C18.random(
    "pieces",
    lambda tier: st.tuples(
        st.sampled_from(PIECES), st.integers(2, len(LENGTHS) - 1), st.sampled_from((0, 0.0005, 0.002, 0.01, 0.1, 0.5)), st.integers(0, 1 << 16)
    ),
    quick=160,
    cpu_s=300,
)
def _(case, note):
    source = pieces(case)
    check_line_diff(source, side(source, 0, ""), side(source, 1, ""), note)


def newline_text(seq):
    return "".join("\nab"[t] for t in seq)


def small_texts(tier):
    n = 4 if tier == "quick" else 5
    every = list(gen.every_sequence(3, n))
    for a in every:
        for b in every:
            yield a, b


@C18.exhaustive("small", small_texts)
def _(case, note):
    old, new = map(newline_text, case)
    check_line_diff(list(gaspra.diff_token_sequences(old, new)), new, old, note)


@C18.random(
    "letters",
    lambda tier: gen.pairs(alphabets=(2, 3, 3, 4), limits=((0, 8), (4, 24))).map(
        lambda t: tuple("".join("\nab "[x] for x in s) for s in t)
    ),
    quick=12000,
)
def _(case, note):
    old, new = case
    check_line_diff(list(gaspra.diff_token_sequences(old, new)), new, old, note)


# ------------------------------------------------------------ running the tools


class Files:
    """Scratch files, and runs of the tools on them."""

    def __enter__(self):
        self.folder = tempfile.TemporaryDirectory(prefix="gaspra-check-")
        self.count = 0
        return self

    def __exit__(self, *_):
        self.folder.cleanup()

    def write(self, name, contents):
        """Each file in a directory of its own, so that names may be equal."""
        self.count += 1
        folder = os.path.join(self.folder.name, f"d{self.count}")
        os.mkdir(folder)
        path = os.path.join(folder, name)
        with open(path, "wb") as f:
            f.write(contents if isinstance(contents, bytes) else contents.encode("utf-8"))
        return path

    def run(self, tool, arguments, environment=()):
        """What the tool prints."""
        # A tool may only write where it's told to.
        before = sys.argv, os.getcwd()
        out, err = io.StringIO(), io.StringIO()
        sys.argv = ["gaspra", *arguments]
        os.chdir(self.folder.name)
        variables = {k: os.environ.get(k) for k in dict(environment)}
        os.environ.update(environment)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                {"diff": merge_tool.diff_cli, "merge": merge_tool.merge_cli}[tool]()
        except SystemExit as e:
            raise Violation(f"{tool} {arguments} exited with {e.code!r}: {err.getvalue()}")
        finally:
            sys.argv = before[0]
            os.chdir(before[1])
            for k, v in variables.items():
                if v is None:
                    del os.environ[k]
                else:
                    os.environ[k] = v
        return out.getvalue()

    def run_to_file(self, tool, arguments, path=None, style=0):
        """What the tool writes to its output file."""
        if path is None:
            self.count += 1
            path = os.path.join(self.folder.name, f"out{self.count}")
        option = (["-o", path], ["--output", path], ["-o" + path], ["--output=" + path])[style % 4]
        arguments = [*arguments, *option] if style < 4 else [*option, *arguments]
        printed = self.run(tool, arguments)
        require(printed == "", "printed although there's an output file", tool, arguments, printed)
        with open(path, "rb") as f:
            # Names in markers needn't be valid.
            return f.read().decode("utf-8", "surrogateescape")

    def process(self, tool, arguments, environment=()):
        """What the tool prints in a process of its own."""
        done = subprocess.run(
            [sys.executable, "-B", "-c", f"from gaspra.merge_tool import {tool}_cli as cli; cli()", *arguments],
            cwd=self.folder.name,
            env=dict(os.environ, PYTHONPATH=REPO_SRC, PYTHONIOENCODING="utf-8:surrogateescape", **dict(environment)),
            stdin=subprocess.DEVNULL,
            capture_output=True,
        )
        require(done.returncode == 0, f"exit status {done.returncode}", tool, arguments, done.stdout, done.stderr[-2000:])
        return done.stdout.decode("utf-8", "surrogateescape")

    def relative(self, path):
        return os.path.relpath(path, self.folder.name)


TOKENS = {"": "char", "-c": "char", "-w": "symbol", "-l": "line", "--characters": "char", "--words": "symbol", "--lines": "line"}


def compared(tool, kind, contents):
    """What the tool shows: diff of (original, modified), or merge of (parent, from, into)."""
    tokenizer = FACTORIES[kind]()
    if tool == "diff":
        return list(tokenizers.diff(*contents, tokenizer))
    parent, other, current = map(tokenizer.encode, contents)
    return list(tokenizers.decode_changes(gaspra.merge_token_sequence(parent, current, other), tokenizer))


NAMES = (
    "a", "b.txt", "name with spaces", "[x]", "[bold]x", "a\\[b]", "\\", ":smile:.c", "é", "漢字", "\U0001f600",
    "<<<<<<< x", "=======", "x>y", "{}", "%s", "$HOME", "'q'", '"', "a[0]", "[red]", "#", "x" * 90, "&amp;", "[link=x]y", "]", "[", "[[", "\\\\[",
    "a.", ".a", "..a", "a..", " a", "a ", "-", "--", "-L", "-o", "a.orig", "a.b.c.txt", "A", "~", "*", "a,b", "a;b", "@x", "+x", "CON", "x" * 200, "e\u0301", "\u202e",
    "caf\udce9.txt", "\udcff\udc80x",  # not valid UTF-8
)
names = st.tuples(*(st.sampled_from(NAMES) for _ in range(3)))


# One in some forty is long.
tool_texts = st.integers(0, 39).flatmap(
    lambda i: texts.long_related(3, 150)
    if i == 17
    else texts.related(3, limits=((0, 8), (4, 20), (15, 40)), script=((0, 6), (3, 15)))
)


# Lines of the longest ones.
TOOL_SIZES = (120, 260, 520, 1030, 1500)


def option_list(token, flags):
    return ([token] if token else []) + list(flags)


# ------------------------------------------------------------------ C19

C19 = prop(
    "C19",
    "A case is a tool, a token option, three related texts (made of words, symbols, all kinds of line breaks; lines that look like "
    "markers are left out), file names with unusual characters and further options. Non-trivial: the output has a conflict block with two nonempty sides, "
    "or two blocks. Oracle: a parser of conflict markers and the texts themselves; for merges the sides of the merge by the library.",
    ["no line of the texts looks like a conflict marker"],
)

MARKERS = ("<<<<<<< ", ">>>>>>> ", "=======")


def unmark(text):
    """Texts without lines that look like markers."""
    return re.sub("[<>=]{3,}", "<", text)


def parse_git(output, top, bottom, until=None):
    """Sides and blocks of a git-compatible output, or of its beginning until
    both sides have these lengths; and what's left."""
    state = "common"
    sides = ["", ""]
    blocks = []
    at = 0
    for line in texts.lines(output):
        if state == "common" and until == tuple(map(len, sides)):
            break
        at += len(line)
        if line.startswith("<<<<<<< "):
            require(state == "common", "a marker within a block", output)
            require(line == f"<<<<<<< {top}\n", f"the first side isn't labelled {top!r}", line, output)
            state = "top"
            blocks.append(["", ""])
        elif line.startswith("======="):
            require(state == "top" and line == "=======\n", "a misplaced separator", output)
            state = "bottom"
        elif line.startswith(">>>>>>> "):
            require(state == "bottom", "a misplaced end marker", output)
            require(line == f">>>>>>> {bottom}\n", f"the second side isn't labelled {bottom!r}", line, output)
            state = "common"
        else:
            if state != "bottom":
                sides[0] += line
            if state != "top":
                sides[1] += line
            if state != "common":
                blocks[-1][state == "bottom"] += line
    require(state == "common", "an unfinished block", output)
    return sides, blocks, output[at:]


def check_git_report(report, file_names, contents):
    """Diffs of the into-branch and of the from-branch, after headers."""
    for i in (2, 1):
        header = f"\n{file_names[i]}\n"
        require(report.startswith(header), f"no header for {file_names[i]!r}", report)
        expected = tuple(map(with_newline, (contents[i], contents[0])))
        sides, _, report = parse_git(
            report[len(header) :], file_names[i], file_names[0], tuple(map(len, expected))
        )
        require(tuple(sides) == expected, f"the diff of {file_names[i]!r} doesn't parse back", sides, expected)
    require(len(texts.lines(report)) <= 2, "more than a header before the merge", report)
    require(report.strip() and report[-1] == "\n", "no header before the merge", report)


@C19.random(
    "files",
    lambda tier: st.tuples(
        st.sampled_from(("diff", "merge")), st.sampled_from(tuple(TOKENS)), st.booleans(), st.booleans(), st.booleans(), st.booleans(), names,
        tool_texts,
    ),
    quick=8000,
)
def _(case, note):
    check_git(*case, note)


@C19.random(
    "giant",
    lambda tier: st.tuples(
        st.sampled_from(("diff", "merge")), st.sampled_from(tuple(TOKENS)), st.booleans(), st.booleans(), st.booleans(), st.booleans(), names,
        giant.text_specs(3, TOOL_SIZES),
    ),
    quick=64, cpu_s=300,
)
def _(case, note):
    *how, spec = case
    check_git(*how, giant.expand_texts(spec), note)


def check_git(tool, token, show_lines, strike, report, to_file, file_names, contents, note):
    contents = [unmark(t) for t in contents]
    if not to_file:
        contents = [printable(t) for t in contents]
    if tool == "diff":
        contents = contents[:2]
    with Files() as files:
        paths = [files.write(n, t) for n, t in zip(file_names, contents)]
        arguments = ["-g", *option_list(token, ["-L"] * show_lines + ["-s"] * strike), *paths]
        run = files.run_to_file if to_file else files.run
        output = run(tool, arguments)
        if tool == "merge" and report:
            with_report = run(tool, ["-d", *arguments])
            require(with_report.endswith(output), "the report doesn't end with the merge", with_report, output)
            check_git_report(with_report[: len(with_report) - len(output)], file_names, contents)
            note("report")
    if tool == "diff":
        # Modified above, original below.
        top, bottom = file_names[1], file_names[0]
        expected = contents[1], contents[0]
    else:
        # The into-branch above, the from-branch below.
        top, bottom = file_names[2], file_names[1]
        result = compared("merge", TOKENS[token], contents)
        expected = side(result, 0, ""), side(result, 1, "")
        if not has_change(result):
            require(output == with_newline(expected[0]), "a merge without conflict isn't the merged text", contents, output)
    sides, blocks, _ = parse_git(output, top, bottom)
    for which in (0, 1):
        require(
            sides[which] == with_newline(expected[which]),
            f"side {which} isn't the version it stands for", contents, output, sides[which], expected[which],
        )
    if sides[0] == sides[1] and contents[0] == contents[1]:
        require(not blocks, "a block between equal texts", contents, output)
    note.nontrivial(len(blocks) > 1 or any(x and y for x, y in blocks))
    note(f"{tool}, {min(len(blocks), 3)} blocks")


# ------------------------------------------------------------------ C20

C20 = prop(
    "C20",
    "A case is one to three runs in one process, each with a tool and any options, on related texts with all kinds of line breaks and brackets; "
    "or on files that aren't UTF-8. Non-trivial: the output has inserted and removed text, or there are two runs with different options. "
    "Oracle: the pieces of the diff or merge by the library, in order; the texts themselves.",
    ["texts hold no opening brackets where the output has markup, as markup is recognised by its brackets"],
)

FLAGS = ("-L", "-g", "-s", "--show-lines", "--git-compatible", "--strikeout", "-d", "--diff")
runs = st.tuples(
    st.sampled_from(("diff", "merge")),
    st.sampled_from(tuple(TOKENS)),
    st.lists(st.sampled_from(FLAGS), unique=True, max_size=4),
)
TAG = re.compile(r"\[[^\[\]]*\]")


def without_tags(text):
    return TAG.sub("", text)


def shown_pieces(tool, kind, line_mode, contents):
    """Plain text, or (inserted, removed)."""
    pieces = compared(tool, kind, contents)
    if line_mode:
        pieces = list(consolidated_line_diff(iter(pieces)))
    return [
        (side_text(p.a, 0), side_text(p.b, 1)) if isinstance(p, Change) else p
        for p in pieces
    ]


def flat(pieces):
    return "".join(p if isinstance(p, str) else p[0] + p[1] for p in pieces)


def check_marked(output, pieces):
    """Walk the output along the pieces.  Returns the tags that inserted and
    removed text is marked with."""
    at = 0
    tags = (set(), set())
    for p in pieces:
        if isinstance(p, str):
            require(output.startswith(p, at), "unchanged text isn't where it should be", output, at, p)
            at += len(p)
            continue
        for which, text in enumerate(p):
            if not text:
                # Nothing to show, but it may be marked all the same.
                while m := re.compile(r"\[[^\[\]]*\](?=\[/\])|(?<=\])\[/\]").match(output, at):
                    at = m.end()
                continue
            m = TAG.match(output, at)
            require(m, "changed text isn't marked", output, at, text)
            tags[which].add(m[0])
            end = m.end() + len(text)
            require(output[m.end() : end] == text, "changed text isn't where it should be", output, at, text)
            m = TAG.match(output, end)
            require(m, "changed text doesn't end where it should", output, end)
            at = m.end()
    require(at == len(output), "something follows", output, at)
    return tags


def normal_flags(tool, flags):
    """Flags that the tool has, in their short form."""
    short = {"--show-lines": "-L", "--git-compatible": "-g", "--strikeout": "-s", "--diff": "-d"}
    found = {short.get(f, f) for f in flags}
    if tool == "diff":
        found.discard("-d")
    return found


def check_file_run(files, tool, token, flags, contents, paths, file_names, note):
    used = normal_flags(tool, flags)
    given = [f for f in flags if tool == "merge" or f not in ("-d", "--diff")]
    kind = TOKENS[token]
    output = files.run_to_file(tool, [*option_list(token, given), *paths])
    line_mode = bool(used & {"-L", "-g"})
    pieces = shown_pieces(tool, kind, line_mode, contents)
    changed = any(not isinstance(p, str) for p in pieces)

    if "-d" in used:
        plain = files.run_to_file(tool, [*option_list(token, [f for f in given if f not in ("-d", "--diff")]), *paths])
        require(output.endswith(plain), "the report doesn't end with the merge", contents, output, plain)
        report = output[: len(output) - len(plain)]
        if "-g" not in used:
            # Diffs of the into-branch and then of the from-branch, under
            # their names.
            report = without_tags(report) if not any("[" in n for n in file_names) else None
            at = 0
            for i in (2, 1) if report is not None else ():
                at = report.find(file_names[i], at)
                require(at >= 0, f"no header for {file_names[i]!r}", output)
                text = flat(shown_pieces("diff", kind, line_mode, (contents[0], contents[i])))
                at = report.find(text, at + len(file_names[i]))
                require(at >= 0, f"no diff of {file_names[i]!r}", output, text)
                at += len(text)
        else:
            at = 0
            for i in (2, 1):
                at = report.find(file_names[i], at)
                require(at >= 0, f"no header for {file_names[i]!r}", output)
                text = render("diff", used, kind, (contents[0], contents[i]), (file_names[0], file_names[i]))
                at = report.find(text, at + len(file_names[i]))
                require(at >= 0, f"no diff of {file_names[i]!r}", output, text)
                at += len(text)
        output = plain

    if not changed:
        require(output == flat(pieces), "text without changes isn't written as it is", tool, given, contents, output)
    elif "-g" not in used:
        tags = check_marked(output, pieces)
        require(not tags[0] & tags[1], "inserted and removed text are marked alike", output, tags)
        note("marked")
    note(f"{tool} {'changed' if changed else 'unchanged'}")
    return output, changed and any(not isinstance(p, str) and p[0] and p[1] for p in pieces)


@C20.random(
    "runs",
    lambda tier: st.tuples(
        st.lists(runs, min_size=1, max_size=3), names,
        tool_texts, st.integers(0, 3), st.integers(0, 7),
    ),
    quick=5000,
)
def _(case, note):
    sequence, file_names, contents, over, style = case
    seen = {}
    contents = tuple(t.replace("[", "(") for t in contents)
    with Files() as files:
        paths = [files.write(n, t) for n, t in zip(file_names, contents)]
        # Each again at the end, with the same output as before.
        for tool, token, flags in sequence + sequence[:1]:
            n = 2 if tool == "diff" else 3
            if style % 3 == 0:  # To the console in between, which C21 is about.
                files.run(tool, [*option_list(token, [f for f in flags if tool == "merge" or f not in ("-d", "--diff")]), *paths[:n]])
            output, both = check_file_run(files, tool, token, flags, contents[:n], paths[:n], file_names, note)
            key = tool, token, tuple(flags)
            require(seen.setdefault(key, output) == output, "another output the second time", key, contents, seen[key], output)
            note.nontrivial(both or len(seen) > 1)
        # Files read are left alone.
        for path, text in zip(paths, contents):
            with open(path, "rb") as f:
                require(f.read() == text.encode("utf-8"), "an input file was changed", case)
        # Once more over an existing file, which may be one of those read.
        tool, token, flags = sequence[0]
        n = 2 if tool == "diff" else 3
        given = [f for f in flags if tool == "merge" or f not in ("-d", "--diff")]
        there = paths[over] if over < n else files.write("there", "something there before\n" * 200)
        if style % 2:
            paths = [files.relative(p) for p in paths]
        # (The report comes before what check_file_run() returns.)
        output = files.run_to_file(tool, [*option_list(token, given), *paths[:n]], there, style)
        expected = seen[tool, token, tuple(flags)]
        require(
            output.endswith(expected) if "-d" in normal_flags(tool, flags) else output == expected,
            "another output over an existing file", case, output, expected,
        )


@C20.random(
    "brackets",
    lambda tier: st.tuples(
        st.sampled_from(tuple(TOKENS)), st.lists(st.sampled_from(FLAGS), unique=True, max_size=4), names,
        st.lists(st.sampled_from(("[", "]", "[bold]", "[/]", "\\", "\\[", "x", "\n", "\r\n", "\r", "a b", "é", ":smile:", "[/bold]", "\t", "\x1b[1m")), max_size=12).map("".join),
        st.lists(st.sampled_from(("[", "]", "[red]", "[/]", "\\", "y", "\n", "\r\n", "z")), max_size=4).map("".join),
    ),
    quick=3000,
)
def _(case, note):
    token, flags, file_names, text, more = case
    used = normal_flags("merge", flags)
    edited = text + more
    with Files() as files:
        # Only one branch changes, so that there's no markup at all.
        paths = [files.write(n, t) for n, t in zip(file_names, (text, edited, text))]
        given = [f for f in flags if f not in ("-d", "--diff")]
        output = files.run_to_file("merge", [*option_list(token, given), *paths])
        line_mode = bool(used & {"-L", "-g"})
        expected = with_newline(edited) if line_mode else edited
        require(output == expected, "not the merged text", case, output, expected)
        same = files.write("same", edited)
        output = files.run_to_file("diff", [*option_list(token, given), paths[1], same])
        require(output == expected, "a diff of equal texts isn't the text", case, output, expected)
    note.nontrivial("[" in edited)


@C20.random(
    "giant", lambda tier: st.tuples(runs, names, giant.text_specs(3, TOOL_SIZES), st.booleans()), quick=48, cpu_s=300
)
def _(case, note):
    (tool, token, flags), file_names, spec, crlf = case
    contents = [t.replace("\n", "\r\n") if crlf else t for t in giant.expand_texts(spec)]
    n = 2 if tool == "diff" else 3
    with Files() as files:
        paths = [files.write(name, t) for name, t in zip(file_names, contents)]
        output, both = check_file_run(files, tool, token, flags, contents[:n], paths[:n], file_names, note)
        again = files.run_to_file(tool, [*option_list(token, [f for f in flags if f not in ("-d", "--diff")]), *paths[:n]], paths[0], 0)
        require(again == output, "another output over an input file", case)
    note.nontrivial(both)


LARGE = (70_000, 140_000, 270_000, 1_100_000, 2_200_000, 4_300_000, 17_000_000)
large_rows = st.lists(
    st.tuples(
        st.sampled_from(("x", "word ", "\\", "é", "漢 ", "a\r")), st.one_of(st.sampled_from((0, 1, 40)), st.sampled_from(LARGE)),
        st.lists(st.tuples(st.sampled_from(("", "", "a", "b", " ")), st.sampled_from(("", "", "a"))), min_size=3, max_size=3), st.booleans(),
    ),
    min_size=1, max_size=5,
)


@C20.random(
    "megabytes",
    lambda tier: st.tuples(
        st.sampled_from(("diff", "merge")), st.sampled_from(("-l", "--lines")), st.lists(st.sampled_from(FLAGS), unique=True, max_size=3), names, large_rows,
    ),
    quick=40, cpu_s=300,
)
def _(case, note):
    """Large files of a few lines."""
    tool, token, flags, file_names, rows = case
    n = 2 if tool == "diff" else 3
    left = 20_000_000
    contents = ["", "", ""]
    for unit, size, ends, newline in rows:
        size = size if size <= left else 3
        left -= size
        middle = unit * (size // len(unit) + 1)
        for i in range(3):
            contents[i] += ends[i][0] + middle + ends[i][1] + "\n" * newline
    with Files() as files:
        paths = [files.write(name, t) for name, t in zip(file_names, contents[:n])]
        _, both = check_file_run(files, tool, token, tuple(flags), contents[:n], paths, file_names, note)
    note.nontrivial(both)


@C20.random(
    "encodings",
    lambda tier: st.tuples(
        st.sampled_from(("diff", "merge")), st.sampled_from(tuple(TOKENS)),
        st.lists(
            st.one_of(
                st.text("ab\né\r", max_size=8).map(lambda s: s.encode("utf-8")),
                st.text("ab\né\r\xa0ÿ", max_size=8).map(lambda s: s.encode("latin-1")),
                st.binary(max_size=8),
            ).map(lambda b: b.replace(b"[", b"(")),
            min_size=3, max_size=3,
        ),
    ),
    quick=3000,
)
def _(case, note):
    tool, token, raw = case
    contents = []
    for b in raw:
        try:
            contents.append(b.decode("utf-8"))
        except UnicodeDecodeError:
            contents.append(b.decode("latin-1"))
            note.nontrivial(True)
    n = 2 if tool == "diff" else 3
    with Files() as files:
        paths = [files.write(f"f{i}", b) for i, b in enumerate(raw)]
        check_file_run(files, tool, token, [], contents[:n], paths[:n], ("f0", "f1", "f2"), note)


# ------------------------------------------------------------------ C21

C21 = prop(
    "C21",
    "A case is a tool, any options, file names with unusual characters and related texts of printable characters rich in brackets, backslashes, "
    "emoji codes, tags, quotes and long lines. Non-trivial: the text shown holds an opening bracket or backslash, or a line beyond 80 columns. "
    "Oracle: the pieces of the diff or merge by the library, in order.",
    ["texts hold no control characters except newlines: the console expands tabs and drops others"],
)

TRICKY = (
    "[", "]", "[bold]", "[/bold]", "[/]", "\\", "\\[", "\\\\[", "[[", "]]", "\\]", ":smile:", ":+1:", "[red]x[/red]", "[link=http://x]y[/link]", "[@click]",
    "[0]", "a[0]", "[a", "[=]", "[#fff]", "{x}", "https://example.com/x?y=[z]", "x" * 100, "word " * 30, "\n", "\n", "\n\n", "a", "b", " ", "1234", "'s'", '"t"',
    "é", "漢字" * 45, "\U0001f600", "e\u0301", "None", "True", "[/", "/]", "[ ", " ]", "\\n", "%s", "<b>", "&amp;", "<<<<<<< a", "=======\n", ">>>>>>> b\n",
)
CONTROL = re.compile("[\x00-\x09\x0b-\x1f\x7f]")


def printable(text):
    return CONTROL.sub("~", text)


def _tricky(t):
    raw, *scripts = t
    base = [TRICKY[x % len(TRICKY)] for x in raw]
    return tuple(["".join(base)] + ["".join(texts.text_edit(base, s, TRICKY)) for s in scripts])


tricky_texts = st.one_of(
    st.tuples(gen.sized((0, 6), (3, 16)), gen.sized((0, 6), (3, 12)), gen.sized((0, 6), (3, 12))).map(_tricky),
    texts.related(3).map(lambda t: tuple(map(printable, t))),
    tool_texts.map(lambda t: tuple(map(printable, t))),
)


def render(tool, used, kind, contents, file_names):
    """What's expected on the console, markers included."""
    line_mode = bool(used & {"-L", "-g"})
    out = ""
    for p in shown_pieces(tool, kind, line_mode, contents):
        if isinstance(p, str):
            out += p
        elif "-g" in used:
            top, bottom = (file_names[1], file_names[0]) if tool == "diff" else (file_names[2], file_names[1])
            out += f"<<<<<<< {top}\n{p[0]}=======\n{p[1]}>>>>>>> {bottom}\n"
        else:
            out += p[0] + p[1]
    return out


@C21.random(
    "console",
    lambda tier: st.tuples(runs, names, tricky_texts),
    quick=7000,
)
def _(case, note):
    check_console_run(*case, note)


@C21.random("giant", lambda tier: st.tuples(runs, names, giant.text_specs(3, TOOL_SIZES), st.booleans()), quick=48, cpu_s=300)
def _(case, note):
    run, file_names, spec, coloured = case
    (check_coloured if coloured else check_console_run)(run, file_names, giant.expand_texts(spec), note)


WIDE = (1000, 9000, 17000, 40000, 70000, 140000, 270000, 530000, 1050000)
ROWS = (" ", " ", "x", "word ", "[", "\\", "漢", "e\u0301 ")
wide_rows = st.lists(
    st.tuples(
        st.sampled_from(ROWS), st.one_of(st.just(1), st.sampled_from(WIDE)),
        st.lists(st.tuples(st.sampled_from(("", "a", "[b]", " ")), st.sampled_from(("", "a", "[/b]"))), min_size=3, max_size=3), st.booleans(),
    ),
    min_size=1, max_size=2,
)


@C21.random(
    "wide",
    lambda tier: st.tuples(
        st.sampled_from(("diff", "merge")), st.sampled_from(("-l", "-l", "--lines")), st.lists(st.sampled_from(FLAGS), unique=True, max_size=3), names, wide_rows,
    ),
    quick=24, cpu_s=300,
)
def _(case, note):
    tool, token, flags, file_names, rows = case
    contents = [
        "".join(ends[i][0] + unit * (n // len(unit) + 1) + ends[i][1] + "\n" * newline for unit, n, ends, newline in rows) for i in range(3)
    ]
    check_console_run((tool, token, tuple(flags)), file_names, contents, note)


def check_console_run(run, file_names, contents, note):
    tool, token, flags = run
    used = normal_flags(tool, flags)
    given = [f for f in flags if tool == "merge" or f not in ("-d", "--diff")]
    n = 2 if tool == "diff" else 3
    contents = contents[:n]
    kind = TOKENS[token]
    with Files() as files:
        paths = [files.write(name, t) for name, t in zip(file_names, contents)]
        output = files.run(tool, [*option_list(token, given), *paths])
    check_console(output, (run, file_names, contents), tool, used, kind, contents, file_names)
    shown = "".join(contents)
    note.nontrivial("[" in shown or "\\" in shown or any(len(l) > 80 for l in shown.split("\n")))
    note(f"{tool} {' '.join(sorted(used))}")


def check_console(output, case, tool, used, kind, contents, file_names):
    expected = render(tool, used, kind, contents, file_names)
    if "-d" in used:
        require(output.endswith(expected), "the report doesn't end with the merge", case, output, expected)
        at = 0
        for i in (2, 1):
            at = output.find(file_names[i], at)
            require(at >= 0, f"no header for {file_names[i]!r}", output)
            at += len(file_names[i])
            text = render("diff", used, kind, (contents[0], contents[i]), (file_names[0], file_names[i]))
            at = output.find(text, at)
            require(at >= 0, f"the diff of {file_names[i]!r} isn't shown exactly", output, text)
            at += len(text)
        require(len(output) - len(expected) >= at, "the merge doesn't follow the diffs", case, output)
        require(output[at : len(output) - len(expected)].strip(), "no header before the merge", case, output)
    else:
        require(output == expected, "the console doesn't show the text exactly", case, output, expected)


# Nothing depends on these.
NO_UTF8 = (("LC_ALL", "C"), ("PYTHONUTF8", "0"), ("PYTHONCOERCECLOCALE", "0"))
ENVIRONMENTS = (
    (), NO_UTF8, (("COLUMNS", "20"), ("LINES", "3")), (("PYTHONOPTIMIZE", "2"),), (("TERM", "xterm-256color"),), (("NO_COLOR", "1"),),
    (("COLUMNS", "1"), ("TERM", "unknown"), ("HOME", "/nonexistent")), (("TZ", "Asia/Tokyo"), ("LANG", "tr_TR.UTF-8")), NO_UTF8 + (("COLUMNS", "7"),),
)


@C21.random("process", lambda tier: st.tuples(runs, names, tricky_texts, st.sampled_from(ENVIRONMENTS)), quick=48, thorough=2400)
def _(case, note):
    """In a process of its own, to the console and to a file."""
    (tool, token, flags), file_names, contents, environment = case
    used = normal_flags(tool, flags)
    given = [f for f in flags if tool == "merge" or f not in ("-d", "--diff")]
    n = 2 if tool == "diff" else 3
    with Files() as files:
        paths = [files.write(name, t) for name, t in zip(file_names[:n], contents)]
        arguments = [*option_list(token, given), *paths]
        output = files.process(tool, arguments, environment)
        check_console(output, case, tool, used, TOKENS[token], contents[:n], file_names)
        path = files.write("out", "something there before\n" * 200)
        printed = files.process(tool, [*arguments, "--output", files.relative(path)], environment)
        require(printed == "", "printed although there's an output file", case, printed)
        with open(path, "rb") as f:
            written = f.read().decode("utf-8", "surrogateescape")
        expected = files.run_to_file(tool, arguments)
        require(written == expected, "another process writes something else", case, written, expected)
    note(" ".join(f"{k}={v}" for k, v in environment))
    note.nontrivial(output != contents[0])


COLOURED = {"FORCE_COLOR": "1", "TERM": "xterm-256color", "COLORTERM": "truecolor"}
SGR = re.compile("\x1b\\[([0-9;]*)m")


def styled(output):
    """Characters and the style of each."""
    text, styles = [], []
    style = ""
    at = 0
    while at < len(output):
        m = SGR.match(output, at)
        if m:
            style = "" if m[1] in ("", "0") else style + ";" + m[1]
            at = m.end()
        else:
            text.append(output[at])
            styles.append(style)
            at += 1
    return "".join(text), styles


def is_struck(style):
    """Whether the style has a line through the text."""
    codes = style.split(";")
    at = 0
    while at < len(codes):
        if codes[at] in ("38", "48"):
            at += 3 if codes[at + 1] == "5" else 5
            continue
        if codes[at] == "9":
            return True
        at += 1
    return False


def rendered_runs(tool, used, kind, contents, file_names):
    """Text expected on the console with what it is: None, or the side it's on and whether it's a finer change in a changed line."""
    pieces = compared(tool, kind, contents)
    if used & {"-L", "-g"}:
        pieces = list(consolidated_line_diff(iter(pieces)))
    for p in pieces:
        if not isinstance(p, Change):
            yield p, None
            continue
        for which in (0, 1):
            if "-g" in used and which == 0:
                yield f"<<<<<<< {file_names[1 if tool == 'diff' else 2]}\n", None
            coarse = None if "-g" in used else (which, False)
            if isinstance(p[which], str):
                yield p[which], coarse
            else:
                for item in p[which]:
                    if isinstance(item, Change):
                        yield item[which], (which, True)
                    else:
                        yield item, coarse
            if "-g" in used:
                yield (f">>>>>>> {file_names[0 if tool == 'diff' else 1]}\n" if which else "=======\n"), None


def check_styles(rendered, styles, at, strike, seen, output):
    for text, what in rendered:
        # Line breaks have no style.
        mine = {s for c, s in zip(text, styles[at : at + len(text)]) if c != "\n"}
        at += len(text)
        if what is None:
            require(mine <= {""}, f"unchanged text {text!r} is styled", output)
        else:
            require("" not in mine, f"changed text {text!r} isn't styled", output)
            struck = strike and what[0] == 1
            require(all(is_struck(s) == struck for s in mine), f"{text!r} should {'' if struck else 'not '}be struck out", output)
            seen.setdefault(what, set()).update(mine)


@C21.random("colours", lambda tier: st.tuples(runs, names, tricky_texts), quick=4000)
def _(case, note):
    check_coloured(*case, note)


def check_coloured(run, file_names, contents, note):
    tool, token, flags = run
    case = run, file_names, contents
    used = normal_flags(tool, flags)
    given = [f for f in flags if tool == "merge" or f not in ("-d", "--diff")]
    n = 2 if tool == "diff" else 3
    contents = contents[:n]
    kind = TOKENS[token]
    with Files() as files:
        paths = [files.write(name, t) for name, t in zip(file_names, contents)]
        if sum(map(len, contents)) % 2:  # After one with an output file.
            files.run_to_file(tool, [*option_list(token, given), *paths])
        output = files.run(tool, [*option_list(token, given), *paths], COLOURED)
    text, styles = styled(output)
    expected = render(tool, used, kind, contents, file_names)
    # Styles of the diffs, and styles of the merge.
    parts = []
    if "-d" in used:
        at = 0
        for i in (2, 1):
            at = text.find(file_names[i], at)
            require(at >= 0, f"no header for {file_names[i]!r}", output)
            at += len(file_names[i])
            args = ("diff", used, kind, (contents[0], contents[i]), (file_names[0], file_names[i]))
            shown = render(*args)
            at = text.find("\n", at) + 1
            require(text.startswith(shown, at), f"the diff of {file_names[i]!r} isn't shown exactly", output, shown)
            parts.append((rendered_runs(*args), at, "-s" in used))
            at += len(shown)
        require(text.endswith(expected) and len(text) - len(expected) >= at, "the report doesn't end with the merge", output, expected)
    else:
        require(text == expected, "the console doesn't show the text exactly", case, text, expected)
    parts.append((rendered_runs(tool, used, kind, contents, file_names), len(text) - len(expected), "-s" in used and tool == "diff"))
    looks = {}
    for rendered, at, strike in parts:
        seen = looks.setdefault(strike, {})
        check_styles(rendered, styles, at, strike, seen, output)
    for seen in looks.values():
        for one in seen:
            for other in seen:
                require(one == other or not seen[one] & seen[other], f"{one} and {other} look alike", case, output)
    note.nontrivial(any(len(seen) > 1 for seen in looks.values()))
    for seen in looks.values():
        for what in seen:
            note(f"{'removed' if what[0] else 'inserted'}{' within a changed line' if what[1] else ''}")


# ------------------------------------------------------------------ C29

C29 = prop(
    "C29",
    "A case is the name of a test case, its three files (related texts), and one to four runs, each with any options, to the console or to a file. "
    "gaspra-torture runs in a copy of the sources that has these files beside it. Non-trivial: some output shows a conflict. Oracle: gaspra-merge "
    "run on the same files with the same options.",
)

# The names that the files of a test case have: parent, first branch, second branch.
SPECIAL = {
    "chunks": ("chunks_1_0.c", "chunks_1_1.c", "chunks_1_2.c"),
    "ReleaseNotes": ("ReleaseNotes 9_4.html", "ReleaseNotes 9_4_1.html", "ReleaseNotes 9_4_2.html"),
    "Bug_ReporterApp": ("Bug_ReporterApp_Parent.h", "Bug_ReporterApp_BranchA.h", "Bug_ReporterApp_BranchB.h"),
}
TORTURES = (
    "About.java", "ErrorMsg.java", "FlownetController.cpp", "Misc.java", "RearViewMirror.java", "ServerWin_2005.vcproj",
    "ServerWin_2005.vcproj.Reduced", "getCLIArgs.java", *SPECIAL,
)

def torture_names(name):
    return SPECIAL.get(name) or tuple(f"{name}.{end}" for end in ("parent", "1st", "2nd"))


def run_copy(folder, jobs):
    """Run tools from the copy of the sources, in a process of its own: what each prints and its exit status."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        used = resource.getrusage(resource.RUSAGE_SELF)
        limit = int(used.ru_utime + used.ru_stime) + CASE_CPU_S
        resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
        try:
            results = run_jobs(folder, jobs)
        except BaseException as e:
            results = "".join(traceback.format_exception(e, limit=-6))
        try:
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(results).encode("ascii"))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    require(data, "still running, or ended without a result", jobs)
    results = json.loads(data)
    require(not isinstance(results, str), "the tools can't be run", jobs, results)
    return results


def run_jobs(folder, jobs):
    for name in [n for n in sys.modules if n.split(".")[0] == "gaspra"]:
        del sys.modules[name]
    sys.path[:] = [os.path.join(folder, "src"), *(p for p in sys.path if p != REPO_SRC)]
    os.chdir(folder)
    results = []
    copied = importlib.import_module("gaspra.merge_tool")
    require(copied.__file__.startswith(folder), "not the copy", copied.__file__)
    for tool, arguments in jobs:
        sys.argv = ["gaspra", *arguments]
        out = io.StringIO()
        status = None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                getattr(copied, f"{tool}_cli")()
            except SystemExit as e:
                status = e.code
        results.append((status, out.getvalue()))
    return results


@contextlib.contextmanager
def torture_folder():
    with tempfile.TemporaryDirectory(prefix="gaspra-check-") as folder:
        shutil.copytree(os.path.join(REPO_SRC), os.path.join(folder, "src"), ignore=shutil.ignore_patterns("__pycache__"))
        os.mkdir(os.path.join(folder, "test-cases"))
        yield folder


@C29.random(
    "tortures",
    lambda tier: st.tuples(
        st.sampled_from(TORTURES),
        st.one_of(tool_texts, tool_texts, tricky_texts),
        st.lists(st.tuples(st.sampled_from(tuple(TOKENS)), st.lists(st.sampled_from(FLAGS), unique=True, max_size=4), st.booleans()), min_size=1, max_size=4),
    ),
    quick=600,
)
def _(case, note):
    name, contents, how = case
    with torture_folder() as folder:
        paths = [os.path.join(folder, "test-cases", n) for n in torture_names(name)]
        for path, text in zip(paths, contents):
            with open(path, "wb") as f:
                f.write(text.encode("utf-8"))
        jobs = []
        for i, (token, flags, to_file) in enumerate(how):
            options = option_list(token, flags)
            parent, first, second = paths
            for tool, files in (("torture", [name]), ("merge", [parent, second, first])):
                jobs.append((tool, [*files, *options, *(["-o", os.path.join(folder, f"{tool}{i}")] * to_file)]))
        results = run_copy(folder, jobs)
        for i, (token, flags, to_file) in enumerate(how):
            for (status, _), job in zip(results[2 * i : 2 * i + 2], jobs[2 * i : 2 * i + 2]):
                require(status is None, f"exited with {status!r}", case, job)
            shown = [text for _, text in results[2 * i : 2 * i + 2]]
            if to_file:
                require(shown == ["", ""], "printed although there's an output file", case, jobs[2 * i], shown)
                for which, tool in enumerate(("torture", "merge")):
                    with open(os.path.join(folder, f"{tool}{i}"), "rb") as f:
                        shown[which] = f.read().decode("utf-8")
            require(shown[0] == shown[1], "gaspra-torture shows something else than gaspra-merge", case, jobs[2 * i], *shown)
        for path, text in zip(paths, contents):
            with open(path, "rb") as f:
                require(f.read() == text.encode("utf-8"), "an input file was changed", case)
    parent, first, second = map(tokenizers.CharTokenizer().encode, contents)
    note.nontrivial(any(isinstance(p, Change) for p in gaspra.merge_token_sequence(parent, second, first)))
    note(name)


@C29.exhaustive("usage", lambda tier: iter(("-h", "--help", "")))
def _(option, note):
    """Asked for, or without a test case, the usage names every test case."""
    with torture_folder() as folder:
        [(status, shown)] = run_copy(folder, [("torture", [option] * bool(option))])
    require(status == (0 if option else 2), f"exit status {status}", shown)
    for name in TORTURES:
        require(name in shown.split(), f"the usage doesn't name {name}", shown)
    note.nontrivial()


# ------------------------------------------------------------------ bulk


@C18.bulk("bulk", lambda r: (r.choice(("null", "char", "symbol", "line", "merge")), bulk.triple(r)), quick=60000)
def _(case, note):
    how, seqs = case
    source, new, old = compare(how, tuple(map(bulk.text_of, seqs)))
    check_line_diff(source, new, old, note)
