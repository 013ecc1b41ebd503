"""The forms of a specification by mnemonic."""
import re
from functools import lru_cache


@lru_cache(None)
def parts(text):
    """mnemonic, pieces of the operands"""
    m, _, a = text.partition(' ')
    return m, [p for p in re.split(r'([,()\[\]{}])', a) if p]


_cache = {}


def of(table, mn):
    """the instructions of a table with this mnemonic: text, operand pieces"""
    k = id(table)
    if k not in _cache:
        d = _cache[k] = {}
        for t in table:
            m, ps = parts(t)
            d.setdefault(m, []).append((t, ps))
    return _cache[k].get(mn, [])
