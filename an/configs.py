"""Comparison of the same function in two build configurations."""
import re


def differing(D, Q):
    """(functions present in both whose bodies differ, number present in both); closures count for their function"""
    res, n = set(), 0
    for p in D.order:
        if p in Q.fns:
            n += 1
            if D.fns[p].d["%text"] != Q.fns[p].d["%text"]:
                q = re.sub(r"::(\{closure#\d+\}|promoted).*", "", p)
                res.add(q if q in D.fns and q in Q.fns else p)
    return sorted(res), n
