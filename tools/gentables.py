#!/usr/bin/env python3
"""Generates spec/Tables.tla: fixed-point tables of sin, 2^x and 10^(dB/20). Run by hand; the result is committed."""
import math, os
def tup(name, vals, comment):
    rows = [", ".join(map(str, vals[i:i + 16])) for i in range(0, len(vals), 16)]
    return f"\\* {comment}\n{name} == <<\n    " + ",\n    ".join(rows) + " >>\n\n"
out = "------------------------------- MODULE Tables -------------------------------\n(* Generated by tools/gentables.py *)\nEXTENDS Integers, Sequences\n\n"
out += tup("SinTab", [round(1e6 * math.sin(math.pi / 2 * i / 1024)) for i in range(1025)], "10^6 * sin of i/1024 of a quarter turn")
out += tup("ExpTab", [round(2 ** 24 * 2 ** (i / 1024)) for i in range(1025)], "2^24 * 2^(i/1024)")
out += tup("DbTab", [round(2 ** 18 * 10 ** (i / 40)) for i in range(-240, 49)], "2^18 * 10^(h/40) for h = -240 .. 48 half decibels")
out += tup("LogTab", [round(2 ** 20 * math.log2(2 * i + 1)) for i in range(64)], "2^20 * log2 of the odd numbers 1, 3, .. 127")
out += "=============================================================================\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Tables.tla"), "w").write(out)
