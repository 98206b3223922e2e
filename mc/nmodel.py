"""Reference model of notes and their quantization (plain Python)."""
import math


def steps(start, end, sps, amount):
    a = max(0, math.floor(start * sps + (1 - amount) + 1e-8))
    b = max(0, math.ceil(end * sps + (1 - amount) - 1e-8))
    return a, b


def quantized(start, end, sps, amount):
    """(start, end, start step, end step) of a quantized note"""
    a, b = steps(start, end, sps, amount)
    na, nb = a / sps, b / sps
    if na >= end:
        na = max(0.0, end - 0.001)
    if nb < end and not close(nb, end):
        return na, na + (end - start), a, b
    return na, nb, a, b


def close(x, y, tol=1e-9):
    return abs(x - y) <= tol


PITCH = ["C", "C♯", "D", "D♯", "E", "F", "F♯", "G", "G♯", "A", "A♯", "B"]


def pitch_name(p):
    return f"{PITCH[p % 12]}{p // 12 - 1}"


def att(n):
    """all observable attributes of a real note"""
    return (n.pitch, n.velocity, n.program, n.instrument, n.start_time, n.end_time, n.quantized_start_step,
            n.quantized_end_step, n.voice, n.numerator, n.denominator, n.is_drum)


def same(a, b, tol=1e-9):
    """attribute tuples equal, times to within tol"""
    return a[:4] == b[:4] and close(a[4], b[4], tol) and close(a[5], b[5], tol) and a[6:] == b[6:]
