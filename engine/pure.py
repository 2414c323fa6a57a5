"""What pure functions of the standard library give for concrete arguments, by the names the analysis leaves them under.

Strings are tuples of ASCII codes. Used only to confirm differences (engine/conc.py)."""
import re

OPT = "core::option::Option"
UNKNOWN = object()


def some(v):
    return ("adt", OPT, 1, (v,), 1)


NONE = ("adt", OPT, 0, (), 0)
WS = (9, 10, 11, 12, 13, 32)


def wrap(n, ty):
    b = int(ty[1:]) if ty[1:].isdigit() else 64
    n &= (1 << b) - 1
    return n - (1 << b) if ty[0] == "i" and n >> b - 1 else n


def bits(ty):
    return int(ty[1:]) if ty[1:].isdigit() else 64


def fits(n, ty):
    return wrap(n, ty) == n


def operator(op):
    return op.replace("Unchecked", "") in ("Rem", "Div", "Shl", "Shr", "BitAnd", "BitOr", "BitXor")


def binary(op, a, b, ty):
    if op in ("Rem", "Div"):
        if b == 0:
            return UNKNOWN
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q if op == "Div" else a - b * q
    if op.startswith("Sh"):
        n = b & bits(ty) - 1
        return wrap(a << n if op.startswith("Shl") else a >> n, ty)
    m = (1 << bits(ty)) - 1
    if op == "BitAnd":
        return wrap(a & b, ty)
    if op == "BitOr":
        return wrap((a & m) | (b & m), ty)
    if op == "BitXor":
        return wrap((a & m) ^ (b & m), ty)
    return UNKNOWN


def chars(p):
    """a pattern: a code, a text, or several codes"""
    return (p,) if isinstance(p, int) else p


def trim_start(s, p):
    p = chars(p)
    while p and s[:len(p)] == p:
        s = s[len(p):]
    return s


def trim_end(s, p):
    p = chars(p)
    while p and s[-len(p):] == p:
        s = s[:-len(p)]
    return s


def trim_ws(s, a, b):
    i, j = 0, len(s)
    while a and i < j and s[i] in WS:
        i += 1
    while b and i < j and s[j - 1] in WS:
        j -= 1
    return s[i:j]


def find(s, p):
    for i in range(len(s) - len(p) + 1):
        if s[i:i + len(p)] == p:
            return i
    return None


def rfind(s, p):
    for i in range(len(s) - len(p), -1, -1):
        if s[i:i + len(p)] == p:
            return i
    return None


def replace(s, p, r, n=None):
    out = ()
    while p and (n is None or n > 0):
        i = find(s, p)
        if i is None:
            break
        out, s = out + s[:i] + r, s[i + len(p):]
        n = None if n is None else n - 1
    return out + s


def opt(v):
    return NONE if v is None else some(v)


def cut(s, p, at):
    i = at(s, p)
    return NONE if i is None else some(("tup", (s[:i], s[i + len(p):])))


def low(c):
    return c + 32 if 65 <= c <= 90 else c


def up(c):
    return c - 32 if 97 <= c <= 122 else c


def lossy(s):
    return tuple(bytes(s).decode("utf-8", "replace").encode())


STR = {
    "trim": lambda s: trim_ws(s, 1, 1), "trim_start": lambda s: trim_ws(s, 1, 0), "trim_end": lambda s: trim_ws(s, 0, 1),
    "trim_left": lambda s: trim_ws(s, 1, 0), "trim_right": lambda s: trim_ws(s, 0, 1),
    "trim_matches": lambda s, p: trim_end(trim_start(s, p), p), "trim_start_matches": trim_start, "trim_left_matches": trim_start,
    "trim_end_matches": trim_end, "trim_right_matches": trim_end,
    "trim_ascii": lambda s: trim_ws(s, 1, 1), "trim_ascii_start": lambda s: trim_ws(s, 1, 0), "trim_ascii_end": lambda s: trim_ws(s, 0, 1),
    "to_lowercase": lambda s: tuple(map(low, s)), "to_uppercase": lambda s: tuple(map(up, s)),
    "to_ascii_lowercase": lambda s: tuple(map(low, s)), "to_ascii_uppercase": lambda s: tuple(map(up, s)),
    "eq_ignore_ascii_case": lambda s, t: int(tuple(map(low, s)) == tuple(map(low, t))),
    "replace": lambda s, p, r: replace(s, chars(p), r), "replacen": lambda s, p, r, n: replace(s, chars(p), r, n),
    "repeat": lambda s, n: s * min(n, 50), "is_char_boundary": lambda s, i: int(i <= len(s)),
    "find": lambda s, p: opt(find(s, chars(p))), "rfind": lambda s, p: opt(rfind(s, chars(p))),
    "split_once": lambda s, p: cut(s, chars(p), find), "rsplit_once": lambda s, p: cut(s, chars(p), rfind),
    "is_ascii": lambda s: int(all(c < 128 for c in s)),
    "contains": lambda s, p: int(find(s, chars(p)) is not None),
    "starts_with": lambda s, p: int(s[:len(chars(p))] == chars(p)), "ends_with": lambda s, p: int(not chars(p) or s[-len(chars(p)):] == chars(p)),
    "strip_prefix": lambda s, p: some(s[len(chars(p)):]) if s[:len(chars(p))] == chars(p) else NONE,
    "strip_suffix": lambda s, p: some(s[:len(s) - len(chars(p))]) if not chars(p) or s[-len(chars(p)):] == chars(p) else NONE,
    "as_bytes": lambda s: s, "to_string": lambda s: s, "to_vec": lambda s: s, "to_owned": lambda s: s, "into_boxed_slice": lambda s: s,
}
CHR = {
    "to_ascii_lowercase": low, "to_ascii_uppercase": up, "is_ascii": lambda c: int(c < 128), "len_utf8": lambda c: 1 if c < 128 else 2 if c < 2048 else 3,
    "is_ascii_digit": lambda c: int(48 <= c <= 57), "is_numeric": lambda c: int(48 <= c <= 57),
    "is_ascii_hexdigit": lambda c: int(48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102),
    "is_ascii_uppercase": lambda c: int(65 <= c <= 90), "is_ascii_lowercase": lambda c: int(97 <= c <= 122),
    "is_uppercase": lambda c: int(65 <= c <= 90), "is_lowercase": lambda c: int(97 <= c <= 122),
    "is_ascii_alphabetic": lambda c: int(65 <= c <= 90 or 97 <= c <= 122), "is_alphabetic": lambda c: int(65 <= c <= 90 or 97 <= c <= 122),
    "is_ascii_alphanumeric": lambda c: int(48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122),
    "is_alphanumeric": lambda c: int(48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122),
    "is_ascii_whitespace": lambda c: int(c in WS and c != 11), "is_whitespace": lambda c: int(c in WS),
    "is_ascii_control": lambda c: int(c < 32 or c == 127), "is_control": lambda c: int(c < 32 or c == 127),
    "is_ascii_graphic": lambda c: int(33 <= c <= 126),
    "is_ascii_punctuation": lambda c: int(33 <= c <= 126 and not (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122)),
}


def div(a, b):
    return UNKNOWN if b == 0 else binary("Div", a, b, "i64")


def euclid(a, b):
    return UNKNOWN if b == 0 else a - abs(b) * (a // abs(b))


def nextpow(n):
    p = 1
    while p < n:
        p *= 2
    return p


INT = {
    "pow": lambda t, a, b: a ** min(b, 64) if fits(a ** min(b, 64), t) else UNKNOWN,
    "leading_zeros": lambda t, a: bits(t) - (a & (1 << bits(t)) - 1).bit_length(),
    "trailing_zeros": lambda t, a: bits(t) if a == 0 else (a & -a).bit_length() - 1,
    "count_ones": lambda t, a: bin(a & (1 << bits(t)) - 1).count("1"), "count_zeros": lambda t, a: bits(t) - bin(a & (1 << bits(t)) - 1).count("1"),
    "is_power_of_two": lambda t, a: int(a > 0 and a & a - 1 == 0), "next_power_of_two": lambda t, a: nextpow(a),
    "abs": lambda t, a: abs(a), "unsigned_abs": lambda t, a: abs(a), "signum": lambda t, a: (a > 0) - (a < 0),
    "is_negative": lambda t, a: int(a < 0), "is_positive": lambda t, a: int(a > 0),
    "rem_euclid": lambda t, a, b: euclid(a, b), "div_euclid": lambda t, a, b: UNKNOWN if b == 0 else (a - euclid(a, b)) // b,
    "div_ceil": lambda t, a, b: UNKNOWN if b == 0 else -(-a // b), "next_multiple_of": lambda t, a, b: UNKNOWN if b == 0 else -(-a // b) * b,
    "is_multiple_of": lambda t, a, b: int(a == 0) if b == 0 else int(a % b == 0),
    "abs_diff": lambda t, a, b: abs(a - b), "ilog2": lambda t, a: UNKNOWN if a <= 0 else a.bit_length() - 1,
    "checked_div": lambda t, a, b: NONE if b == 0 else some(div(a, b)), "checked_rem": lambda t, a, b: NONE if b == 0 else some(binary("Rem", a, b, t)),
    "wrapping_add": lambda t, a, b: wrap(a + b, t), "wrapping_sub": lambda t, a, b: wrap(a - b, t), "wrapping_mul": lambda t, a, b: wrap(a * b, t),
    "wrapping_neg": lambda t, a: wrap(-a, t), "swap_bytes": lambda t, a: wrap(int.from_bytes((a & (1 << bits(t)) - 1).to_bytes(bits(t) // 8, "little"), "big"), t),
    "to_le": lambda t, a: a, "from_le": lambda t, a: a,
    "to_le_bytes": lambda t, a: tuple((a & (1 << bits(t)) - 1).to_bytes(bits(t) // 8, "little")),
    "to_be_bytes": lambda t, a: tuple((a & (1 << bits(t)) - 1).to_bytes(bits(t) // 8, "big")),
    "checked_pow": lambda t, a, b: some(a ** min(b, 64)) if fits(a ** min(b, 64), t) else NONE,
    "checked_neg": lambda t, a: some(-a) if fits(-a, t) else NONE,
    "checked_next_power_of_two": lambda t, a: some(nextpow(a)) if fits(nextpow(a), t) else NONE,
    "saturating_pow": lambda t, a, b: min(a ** min(b, 64), (1 << bits(t)) - 1),
    "isqrt": lambda t, a: int(a ** 0.5) if a < 1 << 50 else UNKNOWN,
}
_known = {}


def known(name):
    """how a name is evaluated: ('str'|'chr'|'int', function, type)"""
    r = _known.get(name)
    if r is None:
        r = False
        m = re.match(r"core::num::<impl ([iu]\w+)>::(\w+)$", name)
        if m and m.group(2) in INT:
            r = ("int", INT[m.group(2)], m.group(1))
        elif m and m.group(1) == "u8" and m.group(2) in CHR or re.match(r"core::char::(methods::)?<impl char>::\w+$", name):
            f = name.rsplit("::", 1)[1]
            r = ("chr", CHR[f], None) if f in CHR else False
        elif re.match(r"(core::str|alloc::str|core::slice|core::slice::ascii|alloc::slice|core::str::ascii)::<impl (str|\[T\]|\[u8\])>::\w+$", name):
            f = name.rsplit("::", 1)[1]
            r = ("str", STR[f], None) if f in STR else False
        elif name == "alloc::string::String::from_utf8_lossy":
            r = ("raw", lossy, None)
        _known[name] = r
    return r or None
