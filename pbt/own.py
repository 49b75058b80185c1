"""Tokenizers such as a user of the library may write."""

import re

WORDS = re.compile(r"\w+|\W")
WORDS_BYTES = re.compile(rb"[a-z]+|[^a-z]", re.S)


def units(kind, text):
    if kind == "words":
        return (WORDS if isinstance(text, str) else WORDS_BYTES).findall(text)
    if kind == "lines":
        return re.findall("[^\n]*\n|[^\n]+" if isinstance(text, str) else b"[^\n]*\n|[^\n]+", text)
    size = int(kind)
    return [text[i : i + size] for i in range(0, len(text), size)]


class Own:
    """Tokens aren't integers, and their sequence is a tuple or a list."""

    def __init__(self, kind, sequence, wrapped):
        self.kind = kind
        self.sequence = sequence
        self.wrapped = wrapped
        self.empty = b""

    def encode(self, contents):
        self.empty = contents[:0]
        return self.sequence((u, len(u)) if self.wrapped else u for u in units(self.kind, contents))

    def decode(self, contents):
        return self.empty.join(t[0] if self.wrapped else t for t in contents)


KINDS = ("words", "lines", "1", "2", "5")


def factory(kind, as_list, wrapped):
    return lambda: Own(kind, list if as_list else tuple, wrapped)
