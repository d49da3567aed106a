"""Time limits of one check: what they cut short is reported undecided, never quiet by accident and never an alarm."""
import time

TOTAL = 540.0        # one check: interpretation and comparison
EACH = 25.0          # one comparison
_end = [None]


class OutOfTime(Exception):
    pass


def start(total=TOTAL):
    _end[0] = time.monotonic() + total


def stop():
    _end[0] = None


def over():
    return _end[0] is not None and time.monotonic() > _end[0]


def limit(each=EACH):
    """the end of one comparison that begins now"""
    if _end[0] is None:
        return None
    return min(time.monotonic() + each, _end[0])


def past(end):
    return end is not None and time.monotonic() > end
