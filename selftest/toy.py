"""Toy code for the engine self test.  Functions whose name starts with good_
meet the contract in selftest.py, bad_ ones break it in one place."""
import struct

import numpy as np


def good_sum(a):
    s = 0
    for x in a:
        s += x
    return s


def bad_sum(a):
    s = 0
    for x in a[1:]:
        s += x
    return s


def good_header(f):
    n = struct.unpack("<I", f.read(4))[0]
    f.seek(n, 1)
    return n


def bad_header(f):
    n = struct.unpack(">I", f.read(4))[0]
    f.seek(n, 1)
    return n


def good_hist(stream, width):
    out = np.zeros(width, dtype=np.int64)
    for v in stream:
        if v < width:
            out[v] += 1
    return out


def bad_hist(stream, width):
    out = np.zeros(width, dtype=np.int64)
    for v in stream:
        if v <= width - 2:
            out[v] += 1
    return out


def good_slice(a, lo, hi):
    return a[lo:hi, ::2].reshape(-1)


def bad_slice(a, lo, hi):
    return a[lo:hi, 1::2].reshape(-1)


def good_while(n):
    i = 0
    while i * i <= n:
        i += 1
    return i - 1


def bad_while(n):
    i = 0
    while i * i < n:
        i += 1
    return i - 1


def good_fill(n):
    out = np.zeros((n, 3), dtype="u2")
    for k in range(n):
        out[k, 1] = k + 1
    return out


def bad_fill(n):
    out = np.zeros((n, 3), dtype="u2")
    for k in range(n):
        out[k, 1] = k
        out[k, 2] = k
    return out


def good_list(n):
    out = []
    for k in range(n):
        if k % 3 == 0:
            out.append((k, k * 2))
    return out


def bad_list(n):
    out = []
    for k in range(n):
        if k % 3 == 0:
            out.append((k, k * 3))
    return out


def good_key(k):
    return {1: "a", 2: "b"}.get(k, "c")


def bad_key(k):
    return {1: "a", 3: "b"}.get(k, "c")


def good_exc(n):
    if n > 5:
        raise ValueError("n")
    return n


def bad_exc(n):
    if n > 4:
        raise ValueError("n")
    return n
