#!/usr/bin/env python3
"""Writes known-findings.txt: repaired defects, and the cases of known ones."""
import json

FIXED = [
    ("C07", "46abd3e", "an error on a message tape after the first replaced it"),
    ("C25", "659d7af", "a negative depth limit sampled nothing"),
    ("C27", "38b2acc", "an empty sample panicked"),
    ("C27", "f6112c6", "a scalar in a root array panicked"),
    ("C27", "42d2326", "a bad sample left its keys behind and counted"),
    ("C27", "da6d00f", "a sample with more text after its root was accepted"),
    ("C26", "f3fc55e", "a key that occurs twice in a document counted twice"),
    ("C04", "ad9aed4", "a field made only of stars was accepted and panicked when matched"),
    ("C03", "d3ae8d5", "escaped slashes and backslashes of regular expressions were lost (also C15)"),
    ("C16", "638dc13", "timestamps outside 1678 to 2262 compared wrongly"),
    ("C14", "3c036a2", "terms that start or end with punctuation never matched"),
    ("C11", "8c40a7a", 'a field "[0]" was found in a root array, and an empty key panicked there (also C21)'),
    ("C20", "1af8ed2", "a number in a string with escapes was not read as a number"),
    ("C29", "587a53e", "the highlight was misplaced after multi-byte characters"),
    ("C29", "8bc96cf", "a highlight outside of the printed part of the query panicked"),
    ("C09", "7731197", "nested queries took exponential time"),
    ("C23", "4a8b3a2", "statistics read during a match could show more matches than checks"),
    ("C30", "66e4acd", "< and & in fields and values broke the graph"),
    ("C30", "8f451c5", "backslashes in the query broke the title and the DOT text of its graph"),
    ("C30", "f0fd029", "control characters in fields and regular expressions broke the graph"),
    ("C05", "956fc97", "a between of a number and a timestamp was accepted"),
    ("C04", "b5c856f", 'a quoted "*" segment of a field was dropped'),
    ("C24", "f8b5b9f", "a regular expression with an escaped slash at an end got advice for what is next to the slash (also C32)"),
    ("C14", "c6c3d28", "integers beyond 2^53 were searched with other last digits (also C15)"),
    ("C13", "b956e84", "numbers beyond the range of a float64 satisfied no comparison"),
    ("C13", "f49b746", 'the strings "inf" and "infinity" were taken for numbers'),
    ("C32", "2746400", "the playground placed messages by bytes and runes, so that highlights moved after multi-byte characters"),
    ("C04", "eb928b5", "the characters U+0130 and U+212A were accepted in an unquoted field"),
]

out = []
for p, c, w in FIXED:
    out.append(f"fixed: property={p} {c} {w}")

big = [9007199254740992, 9007199254740993, 9007199254740994, 9223372036854775806, 9223372036854775807, -9007199254740993, -9007199254740992]
ops = {"": lambda a, b: a == b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
for o in big:
    for op, f in ops.items():
        for d in big:
            if f(d, o) != f(float(d), float(o)):
                key = f'a:{op}{o} ON {{"a":{d}}}'
                out.append(f"known: property=C13 case={json.dumps(key)} integers beyond 2^53 are compared as float64, which takes {d} and {o} for equal")
out.append('known: property=C05 case="a:><(9007199254740992,9007199254740993)" the bounds are compared as float64 and taken for equal')
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
