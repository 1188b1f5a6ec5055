"""Sample types which the synthetic datasets refer to by name."""
from dataclasses import dataclass, field
from typing import Any

from megatron.energon import Sample


@dataclass
class FieldSample(Sample):
    a: Any
    b: Any
    c: Any = "default c"
    d: Any = field(default_factory=lambda: ["default d"])


@dataclass
class JA(Sample):
    a: Any


@dataclass
class JB(Sample):
    b: Any


@dataclass
class JC(Sample):
    c: Any


@dataclass
class J2(Sample):
    a: Any
    b: Any


@dataclass
class J3(Sample):
    a: Any
    b: Any
    c: Any


@dataclass
class JAll(Sample):
    """All samples of a join as they were, in order."""

    parts: Any


def join_list(*samples):
    p = samples[0]
    return JAll(__key__=p.__key__, __restore_key__=(), __subflavor__=p.__subflavor__, __subflavors__=p.__subflavors__,
                parts=[(s.__key__, getattr(s, n)) for s, n in zip(samples, "abc")])


def join_kw(**samples):
    return join_list(*(samples[n] for n in ("first", "second", "third") if n in samples))


@dataclass
class JMeta(Sample):
    """Contents and labels of the components of a join."""

    parts: Any


def join_meta(*samples):
    p = samples[0]
    return JMeta(__key__=p.__key__, __restore_key__=(), __subflavor__=p.__subflavor__, __subflavors__=p.__subflavors__,
                 parts=[(getattr(s, n), s.__subflavor__, s.__subflavors__) for s, n in zip(samples, "ab")])


def join_meta_kw(first, second):
    return join_meta(first, second)


@dataclass
class OtherText(Sample):
    """Like TextSample."""
    text: str


@dataclass
class JoinedPair(Sample):
    x: Any
    y: Any
