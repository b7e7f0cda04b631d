"""Scenarios of the known findings: each returns a text when the defect shows, None otherwise."""
import sys
from typing import Any, Callable

sys.path.insert(0, "/repo/src")

from diwire import (  # noqa: E402
    Container,
    DependencyRegistrationPolicy,
    FromContext,
    Lifetime,
    Maybe,
    MissingPolicy,
    Provider,
    Scope,
)
from diwire.exceptions import DIWireDependencyNotRegisteredError  # noqa: E402


class Plain:
    pass


class NeedsInt:
    def __init__(self, n: int) -> None:
        self.n = n


def f13() -> str | None:
    c = Container(missing_policy=MissingPolicy.REGISTER_RECURSIVE)
    c.add_instance(Plain(), provides=Plain)
    c.resolve(Plain)
    try:
        c.resolve(NeedsInt)
    except DIWireDependencyNotRegisteredError:
        pass
    try:
        c.resolve(Plain)
    except DIWireDependencyNotRegisteredError as e:
        return f"resolve(Plain) after a failed autoregistration of another class raises {e!r}"
    return None


def f12() -> str | None:
    c = Container(
        missing_policy=MissingPolicy.ERROR,
        dependency_registration_policy=DependencyRegistrationPolicy.IGNORE,
        use_resolver_context=False,
    )
    c.add_instance(Plain(), provides=Plain)
    c.compile()
    try:
        c.resolve(Plain, on_missing=MissingPolicy.REGISTER_ROOT)
    except TypeError as e:
        return f"resolve(.., on_missing=..) raises {e!r}"
    return None


def f8() -> str | None:
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
    class Box:
        pass

    def make(n: FromContext[int]) -> Box:
        return Box()

    c.add_factory(make, provides=Box)
    if c.resolve(Maybe[Box]) is None:
        return "resolve(Maybe[Box]) gives None although Box is registered and its construction fails"
    return None


def f7b() -> str | None:
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
    c.compile()
    if c.resolve(Maybe[Provider[Plain]]) is not None:
        return "resolve(Maybe[Provider[X]]) gives a handle although X is not registered"
    return None


def f2() -> str | None:
    class Item:
        pass

    c = Container(missing_policy=MissingPolicy.ERROR, use_resolver_context=False,
                  dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
    c.add(Item, provides=Item, scope=Scope.REQUEST, lifetime=Lifetime.SCOPED)
    first = c.enter_scope(Scope.REQUEST)
    first.close()
    second = c.enter_scope(Scope.REQUEST)
    a = second.resolve(Item)
    first.close()
    third = c.enter_scope(Scope.REQUEST)
    if second is third or second.resolve(Item) is not a:
        return "closing a scope a second time closes the later scope that reuses its resolver"
    return None


def f20() -> str | None:
    class Thing:
        pass

    got: list[Any] = []
    ns: dict[str, Any] = {"Maybe": Maybe, "Plain": Plain, "Thing": Thing, "got": got}
    exec(  # noqa: S102
        "def make(a: Maybe[Plain] = 1, b: Thing = 2, /):\n    got.append(b)\n    return 3\n",
        ns,
    )
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
    c.add_instance(Thing(), provides=Thing)
    c.add_factory(ns["make"], provides=str)
    c.resolve(str)
    if got == [2]:
        return "a positional-only dependency after an absent optional positional-only one keeps its default"
    return None


SCENARIOS: dict[str, Callable[[], str | None]] = {
    "F13": f13, "F12": f12, "F8": f8, "F7b": f7b, "F2": f2, "F20": f20,
}

if __name__ == "__main__":
    for name, fn in SCENARIOS.items():
        print(name, fn())
