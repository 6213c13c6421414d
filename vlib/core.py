"""Shared records for the explorers (see DESIGN.md, section "Machinery")."""

from collections import Counter


class Rec():
    """What one case of an exploration did."""
    MAX_VIOL = 20

    def __init__(self):
        self.states = set()        # Digests of distinct model states visited.
        self.transitions = 0       # Model transitions (operations) taken.
        self.traces = 0            # Executions of the real code compared.
        self.viol = []             # [(key, message)].
        self.samples = []
        self.counts = Counter()    # Distinct observed outcomes.

    def state(self, canon):
        self.states.add(hash(canon if isinstance(canon, (str, int)) else repr(canon)))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label, n=1):
        self.counts[label] += n

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def fail(self, key, msg):
        if len(self.viol) < self.MAX_VIOL:
            self.viol.append((str(key), str(msg)))

    def expect(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def pack(self):
        return (self.states, self.transitions, self.traces, self.viol,
            self.samples, self.counts)


def attempt(f, *args, **kwargs):
    """Run f and return ('ok', value) or ('err', exception)."""
    try:
        return ('ok', f(*args, **kwargs))
    except Exception as e:          # pylint: disable=broad-except
        return ('err', e)


def tier_pick(tier, quick, thorough):
    return thorough if tier == 'thorough' else quick
