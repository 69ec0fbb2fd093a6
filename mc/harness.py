"""
Frame of the checks: a check enumerates groups (in parallel), every group yields
(key, data) cases, and judge(data) runs one case against the real code and returns
None or a description of the violation.  A replay file holds one case.
"""
import contextlib
import io
import json

from mc import environments
from mc.core import Check, Part, exc_str, guarded, limited


def quiet(func, *args, **kwargs):
    """Run func, returning (result, stdout, stderr)"""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        res = func(*args, **kwargs)
    return res, out.getvalue(), err.getvalue()


def attempt(func, *args, **kwargs):
    """-> (result, None) or (None, exception)"""
    try:
        return func(*args, **kwargs), None
    except Exception as ex:   # pylint: disable=broad-except
        return None, ex


def with_environments(what, groups, cases, judge):
    """The enumeration, extended by the same work done in other environments"""
    def all_groups(thorough):
        return [*({"environment": name} for name in environments.names(thorough)), *groups(thorough)]

    def all_cases(group, thorough):
        if isinstance(group, dict) and "environment" in group:
            return [(f"environment {group['environment']}", group, "environment", 20)]
        return cases(group, thorough)

    def any_judge(data):
        if isinstance(data, dict) and "environment" in data:
            return environments.judge(what, data["environment"])
        return judge(data)

    return all_groups, all_cases, any_judge


def with_threads(what, groups, cases, judge):
    """The enumeration, extended by two users of the library in two threads"""
    from mc import meet    # pylint: disable=import-outside-toplevel

    def all_groups(thorough):
        return [*meet.pairs(what, thorough), *groups(thorough)]

    def all_cases(group, thorough):
        return meet.schedules(group) if isinstance(group, dict) and "meet" in group else cases(group, thorough)

    def any_judge(data):
        return meet.judge(data) if isinstance(data, dict) and "meet" in data else judge(data)

    return all_groups, all_cases, any_judge


def run(pid, groups, cases, judge, extra=None, assumptions=(), cost=1, environment=None, threads=None):
    """
    threads: work of mc.meet that two threads do at the same time
    environment: work of mc.environments that is done in other environments as well

    groups(thorough) -> picklable group ids
    cases(group, thorough) -> iterable of (key, data) or (key, data, outcome name)
    judge(data) -> None | message | (message, number of transitions)
    """
    check = Check(pid)
    if environment:
        groups, cases, judge = with_environments(environment, groups, cases, judge)
    if threads:
        groups, cases, judge = with_threads(threads, groups, cases, judge)

    if check.args.replay:
        with open(check.args.replay, encoding="utf-8") as fh:
            item = json.load(fh)
        msg = guarded(judge, item["data"])
        check.count(1, 1, 1)
        if msg:
            check.violation(item["key"], msg, item["data"])
        check.finish()

    def work(group):
        part = Part()
        it = iter(cases(group, check.thorough))
        while not limited.exhausted():
            try:
                case = next(it)
            except StopIteration:
                break
            except Exception as ex:   # pylint: disable=broad-except
                part.violation(f"{group}: enumeration", "raised " + exc_str(ex), None)
                break
            key, data = case[0], case[1]
            msg = guarded(judge, data)
            part.count(1, cost if len(case) < 4 else case[3], 1)
            part.outcome("violation" if msg else (case[2] if len(case) > 2 and case[2] else "ok"))
            part.sample({"key": key, "data": json.dumps(data, default=str)[:400]})
            if msg:
                part.violation(key, msg, data)
        return part.d

    global _WORK   # pylint: disable=global-statement
    _WORK = work
    check.run_parallel(_call, list(groups(check.thorough)), 1)
    for k, v in (extra or {}).items():
        check.extra[k] = v
    check.assumptions += list(assumptions)
    check.finish()


_WORK = None


def _call(group):
    return _WORK(group)
