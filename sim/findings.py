"""The committed list of recorded defects (known_findings.txt); read only."""
import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
_cache = None


def load():
    global _cache
    if _cache is None:
        _cache = {}
        with open(PATH) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m:
                    _cache[(m.group(1), m.group(2))] = m.group(3).strip()
    return _cache


def known(prop, key):
    return (prop, key) in load()
