"""Result of one analysis group: what was analysed, which obligations hold, what was not decided."""
import re


def norm(s):
    """Locations without line numbers: a violation is identified by construct, not by line."""
    return re.sub(r"(\.rs):\d+", r"\1", s)


class Group:
    def __init__(self, name, rule):
        self.name = name
        self.rule = rule
        self.functions = set()
        self.partitions = 0
        self.points = 0
        self.obligations = 0
        self.discharged = 0
        self.undecided = []     # (where, case, why)
        self.violations = []    # dict(where, rule, case, detail)
        self.samples = []

    def fn(self, body):
        if body is not None:
            self.functions.add(body.where())

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def bad(self, where, rule, case, detail):
        self.obligations += 1
        for v in self.violations:
            if v["where"] == where and v["rule"] == rule:
                v["more"] = v.get("more", 0) + 1
                return
        self.violations.append({"where": where, "rule": rule, "case": case, "detail": detail})

    def unsure(self, where, case, why):
        self.obligations += 1
        if len(self.undecided) < 400:
            self.undecided.append((where, case, why))

    def missing(self, what):
        self.bad(what, "the public operation the property is about exists", "every program", "no such public item in the workspace: %s" % what)

    def need(self, name, n):
        """Fail closed: an analysis that looked at (almost) nothing has not decided anything."""
        if self.partitions < n and not self.undecided and not self.violations:
            self.bad(name, "the analysis covers the operation", "", "only %d cases were analysed (expected at least %d)" % (self.partitions, n))

    def merge(self, o):
        self.functions |= o.functions
        self.partitions += o.partitions
        self.points += o.points
        self.obligations += o.obligations
        self.discharged += o.discharged
        self.undecided += o.undecided
        self.violations += o.violations
        self.samples = (self.samples + o.samples)[:12]

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def json(self):
        return {"group": self.name, "rule": self.rule, "functions": sorted(self.functions), "cases": self.partitions,
                "points": self.points, "obligations": self.obligations, "discharged": self.discharged,
                "undecided": [{"where": norm(str(a)), "case": b, "why": norm(str(c))} for a, b, c in self.undecided[:40]],
                "undecided_count": len(self.undecided), "violations": self.violations, "examples": self.samples}
