#!/usr/bin/env python3
"""Writes lib/hard_floats.h: the floating-point values and decimals that are hardest to print and to read.

Printing multiplies by a power of five or its inverse and takes whole parts: the hardest mantissas of an exponent are
those for which the product lies closest to a whole number. Reading is hardest for the decimals that lie closest to the
middle between two neighbouring values. Both are found by the Euclidean search for the smallest residues of a
multiple, so the set is the same on every run."""
import math, os


def first(a, M, L, R):
    """least x >= 0 with L <= a*x mod M <= R"""
    if L == 0:
        return 0
    a %= M
    if a == 0:
        return None
    if 2 * a > M:
        a, L, R = M - a, M - R, M - L
    k = (L + a - 1) // a
    if k * a <= R:
        return k
    y = first(M % a, a, (-R) % a, (-L) % a)
    return None if y is None else (L + M * y + a - 1) // a


def hits(a, b, M, lo, hi, T, most):
    """the x in [lo, hi) with (a*x + b) mod M < T"""
    r, x = [], lo
    while x < hi and len(r) < most:
        c = (a * x + b) % M
        if c < T:
            d = 0
        else:
            d = first(a, M, M - c, M - c + T - 1)
        if d is None or x + d >= hi:
            break
        x += d
        r.append(x)
        x += 1
    return r


def printing(mant, emax, bias, bits):
    out = []
    for E in range(emax):
        e2 = (E if E else 1) - bias - mant - 2
        lo, hi = (1 << (mant + 1), 1 << (mant + 2)) if E else (2, 1 << (mant + 1))
        ms = set()
        q = max(0, int(e2 * math.log10(2)) - (e2 > 3)) if e2 >= 0 else max(0, int(-e2 * math.log10(5)) - (-e2 > 1))
        for j in range(18):
            if e2 >= 0:
                A, M = 1 << (e2 + 1), 10**(q + j)
            elif -e2 - q - j >= 0:
                A, M = 2 * 5**(-e2 - q - j), 1 << (q + j)
            else:
                A, M = 2, 5**(q + j + e2) << (q + j)
            # the products for the bounds are those of the odd numbers, for the value of the even ones
            for odd in (0, 1) if j < 2 else (1,):
                T = max(1, M >> bits)
                a, b = 2 * A % M, A * odd % M
                for a, b in ((a, b), (-a % M, -b % M)):
                    if a:
                        ms.update(m for m in hits(a, b, M, lo // 2, hi // 2, T, 4) if (a * m + b) % M)
        ms = set(m - ((1 << mant) if E else 0) for m in ms)
        out.append(sorted(ms))
    return out


def reading(mant, emin, emax, counts, lo10, hi10):
    """decimals d * 10^x closest to a midpoint between values with mant+1 bits"""
    out = []
    for x in range(lo10, hi10):
        for n in counts:
            ds = set()
            a, b = 10**(n - 1), 10**n
            # the value d*10^x as num/den
            num, den = (10**x, 1) if x >= 0 else (1, 10**-x)
            # binades that d*10^x passes through
            low = int(math.floor((n - 1 + x) * math.log2(10))) - 1
            for B in range(low, low + 6):
                # d with 2^B <= d*10^x < 2^(B+1)
                f, g = (den << B, num) if B >= 0 else (den, num << -B)
                lo = max(a, -(-f // g))
                hi = min(b, -(-2 * f // g))
                if lo >= hi:
                    continue
                k = max(B, emin) - mant  # the spacing of the values is 2^k
                if B > emax or B < emin - mant - 1:
                    continue
                # d*num/den / 2^k, midpoint when the fraction is one half
                A, M = (num, den << k) if k >= 0 else (num << -k, den)
                if M == 1:
                    continue
                size = (hi - lo).bit_length()
                T = max(1, M >> (size - 1))
                half = -(M // 2)
                for s, h in ((A % M, half % M), (-A % M, -half % M)):
                    if s == 0:
                        continue
                    ds.update(hits(s, h, M, lo, hi, T, 3))
            out += [(x, d) for d in sorted(ds)]
    return out


if __name__ == '__main__':
    f = printing(23, 255, 127, 23)
    d = printing(52, 2047, 1023, 52)
    rd = reading(52, -1022, 1023, (15, 16, 17, 18, 19), -343, 309)
    rf = reading(23, -126, 127, (7, 9, 12, 17), -63, 39)
    import sys
    print(sum(map(len, f)), sum(map(len, d)), len(rd), len(rf), file=sys.stderr)
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib', 'hard_floats.h')
    if len(sys.argv) > 1:
        path = sys.argv[1]
    with open(path, 'w') as o:
        w = o.write
        w('// Generated by tools/hard_floats.py, which says what these are.\n#pragma once\n#include <cstdint>\n')
        for name, t, rows in (('hard_float', 'uint32_t', f), ('hard_double', 'uint64_t', d)):
            w('struct %s_mantissa\n{\n  int exp;\n  %s mant;\n};\nstatic const %s_mantissa %s[] = {\n' % (name, t, name, name))
            for e, ms in enumerate(rows):
                if ms:
                    w(''.join('{%d,0x%x},' % (e, m) for m in ms) + '\n')
            w('};\n')
        w('struct hard_decimal\n{\n  int exp;\n  uint64_t digits;\n};\n')
        for name, rows in (('hard_for_double', rd), ('hard_for_float', rf)):
            w('static const hard_decimal %s[] = {\n' % name)
            last = None
            for x, dd in rows:
                if last is not None and x != last:
                    w('\n')
                last = x
                w('{%d,%du},' % (x, dd))
            w('\n};\n')
