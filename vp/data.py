"""Drawn byte strings: bulk data is expanded deterministically from a small drawn description."""
import random
from hypothesis import strategies as st

KINDS = 5


def expand(spec):
    """spec: hex string, or [length, seed, kind]"""
    if isinstance(spec, str):
        return bytes.fromhex(spec)
    n, seed, kind = spec
    if kind == 0:
        return bytes(n)
    if kind == 1:
        return random.Random(seed).randbytes(n)
    if kind == 2:
        u = random.Random(seed).randbytes(1 + seed % 37)
        return (u * (n // len(u) + 1))[:n]
    if kind == 3:
        r = random.Random(seed)
        u = "".join(r.choice("abcdefgh {}\"\n,01Яж") for _ in range(200)).encode()
        return (u * (n // len(u) + 1))[:n]
    # long runs with noise: half compressible
    r = random.Random(seed)
    out = bytearray()
    while len(out) < n:
        out += bytes([r.randrange(256)]) * r.randrange(1, 300)
        out += r.randbytes(r.randrange(1, 40))
    return bytes(out[:n])


def around(*marks, spread=3):
    """lengths at and near the given boundaries"""
    return st.sampled_from(sorted({m + d for m in marks for d in range(-spread, spread + 1) if m + d >= 0}))


def bulk(lengths):
    return st.tuples(lengths, st.integers(0, 9999), st.integers(0, KINDS - 1)).map(list)


def small_hex(maxlen=40):
    return st.binary(max_size=maxlen).map(lambda b: b.hex())


def blobs(lengths, maxsmall=40):
    return st.one_of(small_hex(maxsmall), bulk(lengths))


def text(max_size=40, extra="", exclude=""):
    """mixed Latin / Cyrillic / symbols / astral"""
    alpha = st.one_of(
        st.sampled_from("abcxyzABCXYZ0129_ .,;-+{}\"'&<>/\\\n\r\t" + extra),
        st.sampled_from("абвгёжяюАБВГЁЖЯЮйЙпПрР"),
        st.sampled_from("éßñøÆ€№—漢字ѣЎў"),
        st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"),
        st.sampled_from("😀𝄞𐍈"))
    if exclude:
        alpha = alpha.filter(lambda c: c not in exclude)
    return st.text(alpha, max_size=max_size)
