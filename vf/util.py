"""Shared helpers of drivers."""
INT_LIM = 2**31 - 1
SENT = -(2**31) + 1  # "not a representable integer" sentinel


class HarnessError(RuntimeError):
    """The machinery (not the code under test) failed."""


class ScenarioTimeout(BaseException):
    """Raised by the alarm inside a worker."""


def I(x):
    """Project a number onto TLC's integers; anything unexpected becomes the sentinel."""
    try:
        if x is None or isinstance(x, (str, bytes)):
            return SENT
        y = int(x)
        if y != x or abs(y) >= INT_LIM:
            return SENT
        return y
    except Exception:
        return SENT
