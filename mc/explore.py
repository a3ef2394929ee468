"""Stateless exploration of choice sequences by depth-first replay, with optional deviation bound and state merging."""
from .core import Group, HarnessError, Violation


class Prune(Exception):
    """ raised out of a body when the state reached was already explored with at least as much budget left """


class Divergence(Violation):
    """ the same choices on fresh objects led somewhere else: the objects under test are not independent.
    (All nondeterminism is owned by the explorer; the group "deterministic" of C01 checks that directly.) """

    def __init__(self, where):
        Violation.__init__(self, "the same choices on fresh objects took another course, %s: state leaks between "
                           "independent objects" % where)


class Chooser(object):
    def __init__(self, prefix, merge=None, sizes=None):
        self.prefix = list(prefix)
        self.sizes = sizes
        self.points = []          # (number of options, chosen)
        self.labels = []
        self.merge = merge
        self.states = []
        self.transitions = 0

    def choose(self, options, label=""):
        """ options: int or sequence; option 0 is the default. returns the index / the element """
        n = options if isinstance(options, int) else len(options)
        if n <= 0:
            raise HarnessError("no option at choice point %r" % label)
        position = len(self.points)
        index = self.prefix[position] if position < len(self.prefix) else 0
        if index >= n or (self.sizes is not None and position < len(self.sizes) and self.sizes[position] != n):
            raise Divergence("at point %d (%s): choice %d of %d" % (position, label, index, n))
        self.points.append((n, index))
        self.labels.append(label)
        self.transitions += 1
        return index if isinstance(options, int) else options[index]

    def state(self, token, remaining=0):
        """ declare the canonical state reached. prunes when it was reached before with >= remaining budget """
        self.states.append(token)
        if self.merge is not None and len(self.points) >= len(self.prefix):
            seen = self.merge.get(token)
            if seen is not None and seen >= remaining:
                raise Prune()
            self.merge[token] = remaining


class Exploration(Group):
    """ Group whose cases are the choice sequences of body(chooser) -> token.

    bound: maximum number of non-default choices in one execution (None: unbounded, i.e. everything).
    merge: prune at already visited canonical states.
    """

    def __init__(self, name, body, deviations=None, merge=False, cap=None, note=None):
        self.body = body
        self.deviations = deviations
        self.merge_map = {} if merge else None
        self.cap = cap
        self.last = None
        self.all_states = set()
        text = "all choices" if deviations is None else "<= %d deviations" % deviations
        if merge:
            text += ", merged states"
        if note:
            text += "; " + note
        super(Exploration, self).__init__(name, self._cases(), self._run,
                                          {"states": 0, "transitions": 0,
                                           "traces_validated_against_impl": 0, "pruned": 0}, text)

    def _run(self, schedule):
        return self._execute(schedule, None, None)

    def _execute(self, schedule, merge, sizes):
        chooser = Chooser(schedule, merge, sizes)
        self.last = chooser
        self.diverged = False
        try:
            token = self.body(chooser)
        except Prune:
            self.stats["pruned"] += 1
            token = None
        except Divergence:
            self.diverged = True
            raise
        finally:
            self.stats["transitions"] += len(chooser.points) - max(0, len(chooser.prefix) - 1)
            for state in chooser.states:
                self.all_states.add(hash(state))
            self.stats["states"] = len(self.all_states)
        if len(chooser.prefix) > len(chooser.points):
            self.diverged = True
            raise Divergence("the schedule is longer than the execution")
        self.stats["traces_validated_against_impl"] += 1
        return token

    def _cases(self):
        stack = [([], [])]
        count = 0
        exploring = self
        while stack:
            prefix, sizes = stack.pop()
            if self.cap is not None and count >= self.cap:
                self.stats["cap_hit"] = True
                return
            count += 1
            exploring.last = None
            self.run = lambda schedule, s=sizes: self._execute(schedule, self.merge_map, s)
            yield prefix
            chooser = self.last
            if chooser is None:
                raise HarnessError("case was not run")
            if self.diverged:
                continue
            points = chooser.points
            chosen = [c for _, c in points]
            sizes_now = [n for n, _ in points]
            cost = sum(1 for c in prefix if c)
            if self.deviations is not None and cost >= self.deviations:
                continue
            alternatives = []
            for position in range(len(prefix), len(points)):
                for index in range(1, points[position][0]):
                    alternatives.append((chosen[:position] + [index], sizes_now[:position + 1]))
            # depth first, shortest deviations of the earliest point last: keep a deterministic order
            stack.extend(reversed(alternatives))
        self.run = self._run


def check_deterministic(body, schedule):
    """ same schedule twice -> same observation """
    first = Chooser(schedule)
    second = Chooser(schedule)
    a = body(first)
    b = body(second)
    if a != b or first.points != second.points:
        raise HarnessError("schedule %r is not deterministic: %r / %r" % (schedule, a, b))
