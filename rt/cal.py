"""Calendar oracle, by day counting (independent of the code under test)."""
import numpy as np

G0 = 2299161          # Julian day number of 15 October 1582


def greg_jdn(y, m, d):
    """Julian day number at noon of a Gregorian date (vectorised; astronomical years)."""
    y, m, d = (np.asarray(v, dtype=np.int64) for v in (y, m, d))
    a = (m <= 2).astype(np.int64)
    yy = y - a
    mp = m + 12 * a - 3
    return 365 * yy + yy // 4 - yy // 100 + yy // 400 + (153 * mp + 2) // 5 + d - 1 + 1721120


def jul_jdn(y, m, d):
    y, m, d = (np.asarray(v, dtype=np.int64) for v in (y, m, d))
    a = (m <= 2).astype(np.int64)
    yy = y - a
    mp = m + 12 * a - 3
    return 365 * yy + yy // 4 + (153 * mp + 2) // 5 + d - 1 + 1721118


def mlen(y, m, gregorian):
    y = np.asarray(y)
    m = np.asarray(m)
    leap = (y % 4 == 0) & (~gregorian | (y % 100 != 0) | (y % 400 == 0))
    base = np.array([0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])[m]
    return base + ((m == 2) & leap)
