"""Rule registry: property id -> (explanation, function(Check))."""
import random
from ..check import Check
from ..harness import AnchorMissing

RULES = {}


def rule(pid, explanation):
    def deco(fn):
        RULES.setdefault(pid, [explanation, []])[1].append(fn)
        return fn
    return deco


CURRENT = []


def run(pid, tier):
    from . import ops_rules, type_rules, factor_rules, io_rules, pitf_rules  # noqa
    if pid not in RULES:
        print('unknown property', pid)
        return 3
    exp, fns = RULES[pid]
    c = Check(pid, tier)
    CURRENT.append((c, exp))
    for f in fns:
        try:
            f(c)
        except AnchorMissing:
            raise
        except Exception as e:
            c.broken(f, e)
    return c.report(exp)


def cut_short(why):
    """report what has been decided so far; what is still running counts as undecided"""
    if not CURRENT:
        return 3
    c, exp = CURRENT[-1]
    c.undec.append(('analysis', c.pid, 'unfinished', why))
    return c.report(exp)
