"""Canonical content of models, independent of representation."""
import hashlib
import json
from datetime import date, datetime, timedelta, timezone
from enum import Enum
from pathlib import PurePath
from uuid import UUID


def norm(x):
    from pydantic import BaseModel
    if isinstance(x, BaseModel):
        return {k: norm(getattr(x, k)) for k in type(x).model_fields}
    if isinstance(x, dict):
        return {str(norm(k)): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((norm(v) for v in x), key=str)
    if isinstance(x, Enum):
        return norm(x.value)
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return f"n{x}"
    if isinstance(x, float):
        return f"n{int(x)}" if x.is_integer() else f"n{x!r}"
    if isinstance(x, timedelta):
        return f"d{round(x / timedelta(microseconds=1))}"
    if isinstance(x, datetime):
        return "t" + (x.astimezone(timezone.utc).isoformat() if x.tzinfo else x.isoformat())
    if isinstance(x, date):
        return "t" + x.isoformat()
    if isinstance(x, PurePath):
        return "s" + x.as_posix()
    if isinstance(x, UUID):
        return "s" + str(x)
    return "s" + str(x)


def h(x):
    return hashlib.sha256(json.dumps(norm(x), sort_keys=True).encode()).hexdigest()[:16]
