"""Texts, and the units that tokenizers make of them."""

import hypothesis.strategies as st

from pbt import gen

# Vocabulary from which texts are put together: lines, words, symbols,
# everything that some function takes for a line break or a word.
WORDS = (
    "\n", "\n", "a", "b", "ab", "foo", "bar_1", " ", "  ", "\n\n", "a b\n", "x=1;", "\t", "\r\n", "\r",
    "é", "e\u0301", "ß", "漢字", "\U0001f600", "\U00010400", "\u2028", "\u2029", "\x85", "\x0b", "\x0c",
    "\x1c", "\x1d", "\x1e", "\u00a0", "\ufeff", "$-", "-", "$", "_", "٣", "²", "Ⅷ", "\u200d", "\x00",
    "<<<<", "foo bar", "{", "}", "foo\n", "bar\n", "\n}", "\\", "\"", "'", "0", "1", "İ", "ı", "#!",
    "\u3000", "\ud7ff", "\ue000", "\uffff", "\U0010ffff", "\x7f", "[a]", "(", ")", ".", ",", "ﬁ",
)
PLAIN = ("\n", "\n", "a", "b", " ", "a\n", "b\n", "foo", "  ", "\n\n", "c", "x y\n", "{\n", "}\n", "d", ";")


def text_from(raw, words=WORDS):
    return "".join(words[t % len(words)] for t in raw)


def text_edit(units, script, words):
    """Edit a list of units as the raw bytes say."""
    out = list(units)
    i = 0
    while i + 3 <= len(script):
        op, at, n = script[i : i + 3]
        i += 3
        at %= len(out) + 1
        new = [words[(n + 7 * j) % len(words)] for j in range(n % 3 + 1)]
        n = n % 4 + 1
        op %= 6
        if op <= 1:
            out[at:at] = new
        elif op == 2:
            del out[at : at + n]
        elif op == 3:
            out[at : at + n] = new
        elif op == 4:
            out[at:at] = out[at : at + n]
        else:
            block = out[at : at + n]
            del out[at : at + n]
            to = (7 * n) % (len(out) + 1)
            out[to:to] = block
    return out


def _texts(t):
    kind, raw, scripts = t
    words = PLAIN if kind % 2 else WORDS
    base = [words[x % len(words)] for x in raw]
    result = ["".join(base)]
    for i, s in enumerate(scripts):
        if kind == 5:
            result.append(text_from(s, words))
        else:
            result.append("".join(text_edit(base, s, words)))
    return tuple(result)


def related(count, limits=((0, 6), (3, 16)), script=((0, 6), (3, 15))):
    """count texts, all but the first mostly edits of the first."""
    return st.tuples(
        st.integers(0, 5),
        gen.sized(*limits),
        st.tuples(*(gen.sized(*script) for _ in range(count - 1))),
    ).map(_texts)


def _long(t):
    kind, plain, size, seed, scripts = t
    words = PLAIN if plain else WORDS
    n = 30 + size
    base = [words[x % len(words)] for x in gen.stretched(kind, 250, n, seed)]
    result = ["".join(base)]
    for s in scripts:
        units = base
        for i in range(0, len(s) - 2, 3):
            # Anywhere, and some of it large.
            at = len(units) * s[i + 1] >> 8
            part = s[i : i + 1] + b"\0" + s[i + 2 : i + 3]
            if s[i] > 230:
                units = units[: at // 2] + units[at:]
            else:
                units = units[:at] + text_edit(units[at:], part, words)
        result.append("".join(units))
    return tuple(result)


def long_related(count, longest=200):
    """Texts of dozens to hundreds of words."""
    return st.tuples(
        st.integers(0, 5), st.booleans(), st.integers(0, longest), gen.raw(1, 10),
        st.tuples(*(gen.raw(0, 15) for _ in range(count - 1))),
    ).map(_long)


# ------------------------------------------------------------ units


def characters(text):
    return list(text)


def lines(text):
    """Lines with their newline; only "\\n" ends a line."""
    newline = "\n" if isinstance(text, str) else b"\n"
    out = []
    at = 0
    while at < len(text):
        end = text.find(newline, at)
        end = len(text) if end < 0 else end + 1
        out.append(text[at:end])
        at = end
    return out


def symbols(text):
    """Runs of word characters, and all other characters one by one."""
    out = []
    in_word = False
    for c in text:
        word = c.isalnum() or c in "_$-"
        if word and in_word:
            out[-1] += c
        else:
            out.append(c)
        in_word = word
    return out


def units(kind, text):
    if kind == "null":
        return [text[i : i + 1] for i in range(len(text))]
    if kind == "line":
        return lines(text)
    split = {"char": characters, "symbol": symbols}[kind]
    if isinstance(text, bytes):
        return [u.encode("utf-8") for u in split(text.decode("utf-8"))]
    return split(text)


KINDS = ("null", "char", "line", "symbol")
