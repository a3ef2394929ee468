"""Check runner: exhaustive evaluation of enumerated cases, replay artefacts, known findings, evidence.

A check is a module checks/cNN.py that defines

    ID     = "C01"
    LEVEL  = "exploration" | "model_checking" | "fault_enumeration"
    RULE   = text: how cases are made and what makes one non-trivial
    def groups(tier): yields Group objects

A Group enumerates cases.  Every case is a JSON-able argument; `run(arg)` executes the real code for that case and
returns a token describing what was observed (used for the distinct / non-trivial counts), or raises Violation.
Any other exception that escapes from a case is a violation as well (the code under test failed where the property
says it must not); the harness itself is deterministic, so on a correct tree no case raises.
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")
MAX_REPORTED = 5


class Violation(Exception):
    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.message = message
        self.key = key


class HarnessError(Exception):
    """ the harness (not the code under test) is broken: always exit 2 """


def require_harness(cond, message):
    if not cond:
        raise HarnessError(message)


def require(cond, message, key=None):
    if not cond:
        raise Violation(message, key)


def expect_equal(actual, expected, what, key=None):
    if not (type(actual) is type(expected) or isinstance(actual, type(expected)) or
            isinstance(expected, type(actual))) or actual != expected:
        raise Violation("%s: expected %r, got %r" % (what, expected, actual), key)


def hexs(data):
    return bytes(data).hex()


def unhex(text):
    return bytes.fromhex(text)


class Group(object):
    """ name, cases (iterable of JSON-able args), run(arg) -> token.

    token: None or a hashable; distinct tokens are counted.  trivial(token) tells which do not count.
    stats: optional dict of extra measured counters merged in the evidence (states, transitions, ...). """

    time_limit = 100            # seconds one case may take; more is a hang of the code under test

    def __init__(self, name, cases, run, stats=None, bound=None):
        self.name = name
        self.cases = cases
        self.run = run
        self.stats = stats if stats is not None else {}
        self.bound = bound


class Known(object):
    def __init__(self, pid):
        self.findings = {}
        self.fixed = []
        if os.path.exists(KNOWN_FILE):
            with open(KNOWN_FILE) as fd:
                for line in fd:
                    line = line.strip()
                    if line.startswith("finding: property=%s " % pid):
                        rest = line[len("finding: property=%s " % pid):]
                        key, _, what = rest.partition(" ")
                        assert key.startswith("key=")
                        self.findings[key[4:]] = what
        self.seen = set()


class GroupResult(object):
    def __init__(self, name):
        self.name = name
        self.cases = 0
        self.tokens = set()
        self.samples = []
        self.violations = []
        self.known = set()
        self.stats = {}
        self.bound = None
        self.wall = 0.0


def run_group(group, known):
    result = GroupResult(group.name)
    started = time.time()
    limit = group.time_limit
    for arg in group.cases:
        result.cases += 1
        set_current(None, group.name, arg)
        signal.alarm(limit)
        message = key = None
        try:
            token = group.run(arg)
        except Violation as error:
            message, key = error.message, error.key
        except HarnessError:
            raise
        except Exception as error:
            message = "unexpected %s: %s\n%s" % (type(error).__name__, error, traceback.format_exc())
        else:
            if token is not None:
                result.tokens.add(hash((group.name, token)))
        if message is not None:
            if key is not None and key in known:
                result.known.add(key)
            else:
                result.violations.append((group.name, arg, message))
        if result.cases in (1, 2, 50):
            result.samples.append({"group": group.name, "case": arg})
        if len(result.violations) >= MAX_REPORTED:
            break
    signal.alarm(0)
    if result.cases == 0:
        raise HarnessError("group %s enumerated no case" % group.name)
    result.stats = dict(group.stats)
    result.bound = group.bound
    result.wall = time.time() - started
    return result


class Runner(object):
    def __init__(self, module, tier, seed):
        self.module = module
        self.pid = module.ID
        self.tier = tier
        self.seed = seed
        self.known = Known(self.pid)
        self.evaluations = 0
        self.tokens = set()
        self.samples = []
        self.violations = []
        self.group_info = {}
        self.counters = {}
        self.started = time.time()

    def merge(self, result):
        self.evaluations += result.cases
        self.tokens |= result.tokens
        self.samples += result.samples
        self.violations += result.violations
        self.known.seen |= result.known
        info = {"cases": result.cases, "distinct": len(result.tokens), "wall_s": round(result.wall, 2)}
        if result.bound:
            info["bound"] = result.bound
        for name, value in result.stats.items():
            info[name] = value
            if isinstance(value, int) and not isinstance(value, bool):
                self.counters[name] = self.counters.get(name, 0) + value
        require_harness(result.name not in self.group_info, "two groups named %s" % result.name)
        self.group_info[result.name] = info
        print("%s %-40s %s" % (self.pid, result.name, json.dumps(info, sort_keys=True)))
        sys.stdout.flush()

    def run(self):
        names = [group.name for group in self.module.groups(self.tier)]
        jobs = min(int(os.environ.get("VERIF_JOBS", "8")), len(names), getattr(self.module, "JOBS", 8))
        if jobs <= 1:
            for group in self.module.groups(self.tier):
                self.merge(run_group(group, self.known.findings))
        else:
            self.run_parallel(names, jobs)
        return self.finish()

    def run_parallel(self, names, jobs):
        """ groups are independent: forked workers take them one by one from a shared pipe, in order """
        tasks_read, tasks_write = os.pipe()
        os.write(tasks_write, bytes(range(len(names))))
        os.close(tasks_write)
        workers = []
        for number in range(jobs):
            read_end, write_end = os.pipe()
            journal = mmap.mmap(-1, JOURNAL_SIZE)
            sys.stdout.flush()
            child = os.fork()
            if child == 0:
                status = 2
                try:
                    os.close(read_end)
                    install_journal(journal)
                    out = os.fdopen(write_end, "wb")
                    while True:
                        task = os.read(tasks_read, 1)
                        if not task:
                            break
                        for index, group in enumerate(self.module.groups(self.tier)):
                            if index == task[0]:
                                pickle.dump(run_group(group, self.known.findings), out)
                                out.flush()
                                break
                    status = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(status)
            os.close(write_end)
            workers.append((child, os.fdopen(read_end, "rb"), journal))
        os.close(tasks_read)
        broken = []
        results = {}
        pending = dict((worker[1].fileno(), worker) for worker in workers)
        while pending:
            ready, _, _ = select.select(list(pending), [], [])
            for fd in ready:
                child, stream, journal = pending[fd]
                try:
                    result = pickle.load(stream)
                except EOFError:
                    del pending[fd]
                    _, status = os.waitpid(child, 0)
                    if status:
                        broken.append((status, journal))
                    continue
                results[result.name] = result
                self.merge(result)
        for status, journal in broken:
            case = signal_case(status, journal)
            if case is None:
                raise HarnessError("a worker failed with status %d" % status)
            self.violations.append((case[0], case[1], death(status)))
        missing = [name for name in names if name not in results]
        if missing and not self.violations:
            raise HarnessError("no result for %s" % missing)

    def finish(self):
        for key in sorted(self.known.seen):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known.findings[key]))
        self.write_evidence()
        if not self.violations:
            print("%s OK: %d cases, %d distinct, %.1fs" % (self.pid, self.evaluations, len(self.tokens),
                                                         time.time() - self.started))
            return 0
        for group, arg, message in self.violations[:MAX_REPORTED]:
            path = write_replay(self.pid, group, arg, message, self.tier)
            print("--- %s group=%s case=%s\n%s" % (self.pid, group, short(arg), message))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1

    def write_evidence(self):
        level = self.module.LEVEL
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.tokens),
            "rule": self.module.RULE,
            "samples": self.samples[:12] or [{"note": "none"}],
            "exhaustive": not self.violations,
            "groups": self.group_info,
        }
        for name, value in self.counters.items():
            coverage.setdefault(name, value)
        if level == "model_checking":
            for name in ("states", "transitions", "traces_validated_against_impl"):
                if name not in coverage:
                    raise HarnessError("model_checking check reports no %s" % name)
        evidence = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": coverage,
            "assumptions": list(getattr(self.module, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - self.started, 3),
            "violations": len(self.violations),
        }
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + ".tmp"
        with open(tmp, "w") as fd:
            json.dump(evidence, fd, indent=1, sort_keys=True, default=repr)
            fd.write("\n")
        os.rename(tmp, path)


def short(arg, limit=400):
    text = json.dumps(arg, default=repr)
    return text if len(text) <= limit else text[:limit] + "..."


_current = None


def set_current(pid, group, arg):
    global _current
    _current = (pid, group, arg)
    if _journal is not None:
        _journal(group, arg)


_journal = None


def replay_dir():
    path = os.path.join(VERIF, "replays")
    os.makedirs(path, exist_ok=True)
    return path


def write_replay(pid, group, arg, message, tier):
    body = json.dumps({"property": pid, "tier": tier, "group": group, "case": arg, "message": message,
                       "replay": "cd /verif && ./check %s --replay <this file>" % pid},
                      indent=1, sort_keys=True, default=repr)
    digest = hashlib.sha1((group + json.dumps(arg, sort_keys=True, default=repr)).encode()).hexdigest()[:12]
    path = os.path.join(replay_dir(), "%s-%s.json" % (pid, digest))
    with open(path, "w") as fd:
        fd.write(body + "\n")
    return path


def replay(module, path):
    with open(path) as fd:
        data = json.load(fd)
    for group in module.groups(data.get("tier", "quick")):
        if group.name == data["group"]:
            try:
                token = group.run(data["case"])
            except Violation as error:
                print("reproduced: %s" % error.message)
                print("VIOLATION property=%s replay=%s" % (module.ID, path))
                return 1
            except Exception:
                traceback.print_exc(file=sys.stdout)
                print("VIOLATION property=%s replay=%s" % (module.ID, path))
                return 1
            print("held: %r" % (token,))
            return 0
    print("no group named %r" % data["group"])
    return 2


def load(pid):
    return importlib.import_module("checks.%s" % pid.lower())


def child_main(pid, args, tier, seed):
    try:
        module = load(pid)
    except HarnessError:
        traceback.print_exc()
        return 2
    except Exception as error:
        return import_failure(pid, tier, seed, error)
    try:
        if len(args) >= 2 and args[0] == "--replay":
            return replay(module, args[1])
        return Runner(module, tier, seed).run()
    except HarnessError:
        traceback.print_exc()
        return 2


def import_failure(pid, tier, seed, error):
    """ the code under test can not even be imported: nothing the property promises is available """
    traceback.print_exc(file=sys.stdout)
    if "/src/infi/asi/" not in traceback.format_exc():
        return 2
    path = write_replay(pid, "import", None, repr(error), tier)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = argv[2:]
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    # run in a child, so that a crash of the interpreter (the fakes write through raw pointers the code under test
    # hands out, as a kernel would) is reported as what it is: a violation, with the case that was running
    sys.stdout.flush()
    journal = mmap.mmap(-1, JOURNAL_SIZE)
    child = os.fork()
    if child == 0:
        status = 2
        try:
            install_journal(journal)
            status = child_main(pid, args, tier, seed)
        except BaseException:
            traceback.print_exc()
            status = 2
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(status)
    _, status = os.waitpid(child, 0)
    case = signal_case(status, journal)
    if case is not None:
        print(death(status))
        path = write_replay(pid, case[0], case[1], death(status), tier)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if os.WIFSIGNALED(status):
        print("the checking process died with signal %d" % os.WTERMSIG(status))
        return 2
    return os.WEXITSTATUS(status)


JOURNAL_SIZE = 1 << 20


def signal_case(status, journal):
    """ the case that was running when a process died of a crash (None: it did not die of a crash) """
    length = int.from_bytes(journal[:4], "big")
    hang = os.WIFEXITED(status) and os.WEXITSTATUS(status) == HANG
    if (hang or os.WIFSIGNALED(status) and os.WTERMSIG(status) in (4, 6, 7, 8, 11)) and length:
        return json.loads(journal[4:4 + length].decode())
    return None


HANG = 77


def death(status):
    if os.WIFSIGNALED(status):
        return "the interpreter died with signal %d in this case" % os.WTERMSIG(status)
    return "this case did not end"


def hang(*_):
    os._exit(HANG)


def install_journal(memory):
    """ remember the running case in memory shared with the parent """
    global _journal
    signal.signal(signal.SIGALRM, hang)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

    def journal(group, arg):
        text = json.dumps([group, arg], default=repr).encode()[:JOURNAL_SIZE - 4]
        memory[0:4] = len(text).to_bytes(4, "big")
        memory[4:4 + len(text)] = text
    _journal = journal
