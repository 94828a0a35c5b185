"""Exact arithmetic on concrete domain parameters (used on the constants of the curve table only)."""

SMALL = [p for p in range(2, 1000) if all(p % q for q in range(2, int(p ** .5) + 1))]


def is_prime(n):
    """trial division, Miller-Rabin for 46 bases and a strong Lucas test (no composite is known to pass)"""
    if n < 2: return False
    for p in SMALL:
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in SMALL[:46]:
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return lucas(n)


def isqrt(n):
    import math
    return math.isqrt(n)


def jacobi(a, n):
    a %= n; r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5): r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3: r = -r
        a %= n
    return r if n == 1 else 0


def lucas(n):
    if isqrt(n) ** 2 == n: return False
    D = 5
    while jacobi(D, n) != -1:
        D = -(D + 2) if D > 0 else -(D - 2)
    P, Qv = 1, (1 - D) // 4
    d, s = n + 1, 0
    while d % 2 == 0: d //= 2; s += 1
    U, V, Qk = 1, P, Qv; half = (n + 1) // 2
    for b in bin(d)[3:]:
        U, V, Qk = U * V % n, (V * V - 2 * Qk) % n, Qk * Qk % n
        if b == "1":
            U, V, Qk = (P * U + V) * half % n, (D * U + P * V) * half % n, Qk * Qv % n
    if U == 0 or V == 0: return True
    for _ in range(s - 1):
        V = (V * V - 2 * Qk) % n; Qk = Qk * Qk % n
        if V == 0: return True
    return False


def on_curve(kind, p, c1, c2, P):
    x, y = P
    if kind == "ws": return (y * y - x ** 3 - c1 * x - c2) % p == 0
    if kind == "mo": return (c1 * y * y - x ** 3 - c2 * x * x - x) % p == 0
    if kind == "ed": return (x * x + y * y - c1 * c1 * (1 + c2 * x * x * y * y)) % p == 0
    return (c1 * x * x + y * y - 1 - c2 * x * x * y * y) % p == 0


def add(kind, p, c1, c2, P, R):
    """complete affine addition; None is the neutral element of ws and mo"""
    inv = lambda a: pow(a % p, -1, p)
    if kind in ("ed", "te"):
        (x1, y1), (x2, y2) = P, R
        k = c2 * x1 * x2 * y1 * y2 % p
        if kind == "ed":
            return (x1 * y2 + y1 * x2) * inv(c1 * (1 + k)) % p, (y1 * y2 - x1 * x2) * inv(c1 * (1 - k)) % p
        return (x1 * y2 + y1 * x2) * inv(1 + k) % p, (y1 * y2 - c1 * x1 * x2) * inv(1 - k) % p
    if P is None: return R
    if R is None: return P
    (x1, y1), (x2, y2) = P, R
    if x1 == x2 and (y1 + y2) % p == 0: return None
    if kind == "ws":
        l = (3 * x1 * x1 + c1) * inv(2 * y1) if P == R else (y2 - y1) * inv(x2 - x1)
        x3 = (l * l - x1 - x2) % p
    else:
        l = (3 * x1 * x1 + 2 * c2 * x1 + 1) * inv(2 * c1 * y1) if P == R else (y2 - y1) * inv(x2 - x1)
        x3 = (c1 * l * l - c2 - x1 - x2) % p
    return x3, (l * (x1 - x3) - y1) % p


def mul(kind, p, c1, c2, k, P):
    R = {"ed": (0, c1 % p), "te": (0, 1)}.get(kind)
    for b in bin(k)[2:]:
        R = add(kind, p, c1, c2, R, R)
        if b == "1": R = add(kind, p, c1, c2, R, P)
    return R


def neutral(kind, p, c1): return {"ed": (0, c1 % p), "te": (0, 1)}.get(kind)


def singular(kind, p, c1, c2):
    if kind == "ws": return (4 * c1 ** 3 + 27 * c2 * c2) % p == 0
    if kind == "mo": return c1 % p == 0 or (c2 * c2 - 4) % p == 0
    if kind == "ed": return c1 % p == 0 or c2 % p == 0 or (c1 ** 4 * c2 - 1) % p == 0
    return c1 % p == 0 or c2 % p == 0 or (c1 - c2) % p == 0


def complete(kind, p, c1, c2):
    sq = lambda a: pow(a % p, (p - 1) // 2, p) == 1
    if kind == "ed": return not sq(c2)
    if kind == "te": return sq(c1) and not sq(c2)
    return True


def gmp_int(s, base=0):
    """value of a text for mpz_set_str, or None if it is not a number"""
    t = "".join(ch for ch in s if not ch.isspace()); neg = t.startswith("-")
    if neg: t = t[1:]
    if base == 0:
        base = 10
        if t[:2] in ("0x", "0X"): base = 16; t = t[2:]
        elif t[:2] in ("0b", "0B"): base = 2; t = t[2:]
        elif t[:1] == "0" and len(t) > 1: base = 8; t = t[1:]
    try:
        if not t or not t.isalnum(): return None
        v = int(t, base)
    except ValueError: return None
    return -v if neg else v
