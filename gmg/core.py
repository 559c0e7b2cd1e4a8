"""Shared exceptions and small helpers."""


class Violation(Exception):
    """The property does not hold on this case."""


class Inconclusive(Exception):
    """The case could not be decided (never a violation)."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Info:
    """What a case exercised: labels are counted; a case is non-trivial when the rule of its check says so."""

    def __init__(self, nontrivial=True, labels=(), evals=1):
        self.nontrivial, self.labels, self.evals = bool(nontrivial), list(labels), evals


class Part:
    """One generated search: a strategy of JSON-able cases and a function that checks one case."""

    def __init__(self, name, strategy, run, quick, thorough):
        self.name, self.strategy, self.run, self.quick, self.thorough = name, strategy, run, quick, thorough
