"""Seeded generators of inputs."""
import random

import numpy as np

ALPHA = [
    "ab", "abc<>", "abcdefghijklmnopqrstuvwxyz", "äöüßéñ", "ÀÿĀſ",
    "語彙日本", "😀🎉𝒳\U0010ffff", "a\u0301e\u0308", "aä語😀", "<>", "\u00a0\u2003x\u3000y",
    "0123456789.-", "\x00\x01\x7f", "\u0080\u07ff\u0800\uffff\U00010000",
    "\ud7ff\ue000\ufffd\ufeff", "ıİſK", "xyz \t", "aBcDeFG", "#%&*'\"\\,;:$@!|/=[]{}()~^`?+_",
]
# words that mean something elsewhere
TOKENS = ["#a", "##", "%s", "{}", "\\n", "\\x00", "\"q\"", "'", ",", "a,b", "a;b", "$HOME", "__label__a", "None", "null", "nan",
          "NaN", "inf", "-inf", "0", "-0", "1e5", "0x10", "1_000", "2 3", "//", "--", "-", "-k", "[UNK]", "<unk>", "<s>", "</s>",
          "&amp;", "\u200b", "\u200da", "\u2028", "\x85", "\x1c", "a\u0300", "\u1e9e", "ǅ", "ﬁ", "Σ", "ς", "e\u0301\u0323"]


def rng_for(seed, *salt):
    return random.Random(repr((seed,) + salt))


def word(r, maxlen=8, nospace=False, minlen=0):
    if r.random() < 0.05:
        w = r.choice(TOKENS)
        if minlen <= len(w) <= maxlen and not (nospace and w.split(" ") != [w]):
            return w
    alpha = r.choice(ALPHA)
    if r.random() < 0.2:
        alpha = alpha + r.choice(ALPHA)
    n = r.randint(minlen, maxlen) if maxlen < 4 or r.random() < 0.97 else r.randint(maxlen, 3 * maxlen)
    w = "".join(r.choice(alpha) for _ in range(n))
    if n and r.random() < 0.015:
        w = r.choice(["\ufeff", "\u00a0", "</s>", "Aa"]) + w[1:]
    if nospace:
        w = "".join(c for c in w if c not in " \t\n\r\x0b\x0c\x00")
    return w


def words(r, n, maxlen=8, nospace=False, minlen=1):
    """n distinct words."""
    out, seen, tries = [], set(), 0
    while len(out) < n:
        tries += 1
        w = word(r, maxlen if tries < 50 * n + 100 else maxlen + 8, nospace, minlen)
        if len(w) < minlen or w in seen:
            continue
        seen.add(w)
        out.append(w)
    return out


def int_matrix(r, rows, cols, lo=-8, hi=8):
    return np.array([[r.randint(lo, hi) for _ in range(cols)] for _ in range(rows)],
                    dtype=np.float32).reshape(rows, cols)


SPECIAL = [0x00000000, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001,
           0xffc12345, 0x00000001, 0x807fffff, 0x00800000, 0x7f7fffff, 0x3f800000,
           0x0a0a0a0a, 0x20202020, 0x0d0a200a, 0x46694675]


def bit_matrix(r, rows, cols):
    """Any bit patterns, the special ones often."""
    v = [r.choice(SPECIAL) if r.random() < 0.4 else r.getrandbits(32)
         for _ in range(rows * cols)]
    return np.array(v, dtype='<u4').view('<f4').reshape(rows, cols)


def nice_matrix(r, rows, cols, zero=0.1):
    """Finite values of moderate size (1e-15..1e15), zero rows now and then."""
    out = np.zeros((rows, cols), dtype=np.float32)
    for i in range(rows):
        if r.random() < zero:
            continue
        mag = r.choice([0, 0, 0, -12, 12, 5, -5])
        for j in range(cols):
            k = r.random()
            if k < 0.1:
                continue
            x = r.uniform(-2, 2) if k < 0.7 else float(r.randint(-20, 20))
            out[i, j] = np.float32(x * 10.0 ** (mag + r.choice([0, 0, 0, -1, 1])))
    return out


def layouts(r, a):
    """The same array in another memory layout."""
    k = r.randrange(6)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return a.astype(a.dtype.newbyteorder('>'))
    if k == 2:
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if k == 3:
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 4 and a.ndim == 2:
        return np.asfortranarray(a.astype(a.dtype.newbyteorder('>')))
    return a
