"""Interrupts at executed lines of the library (a cancelled operation, Ctrl-C,
a killed task): the fault is raised between two lines of the code under test."""

import os
import sys

from sim.core import REPO, HarnessError, NoProgress, SimCrash, Violation

AUXI = os.path.join(REPO, "auxi") + os.sep


def _is_auxi(filename):
    return filename.startswith(AUXI)


def count_lines(fn):
    """Run fn and count the executed lines of the library."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def glob(frame, event, arg):
        return local if _is_auxi(frame.f_code.co_filename) else None
    sys.settrace(glob)
    try:
        result = fn()
    finally:
        sys.settrace(None)
    return n[0], result


def interrupt_at(fn, n, exc=SimCrash):
    """Run fn, raising exc before the n-th executed line (from 1) of the
    library. Returns (function interrupted or None, result of fn)."""
    left = [n]
    where = [None]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                where[0] = "%s:%s" % (
                    os.path.basename(frame.f_code.co_filename),
                    frame.f_code.co_name)
                raise exc("injected")
        return local

    def glob(frame, event, arg):
        return local if left[0] > 0 and \
            _is_auxi(frame.f_code.co_filename) else None
    result = None
    sys.settrace(glob)
    try:
        result = fn()
    except (Violation, HarnessError, NoProgress):
        raise
    except BaseException:
        # C code may replace the interrupt by an error of its own: iterating
        # an OrderedDict turns one raised in a key's __hash__ into a KeyError.
        if where[0] is None:
            raise
    finally:
        sys.settrace(None)
    return where[0], result


def nest_at(fn, n, other):
    """Run fn; before the n-th executed line of the library, run other to its
    end (as a signal handler or a finaliser would), then go on.
    Returns (was other run, result of fn)."""
    left = [n]
    ran = [False]

    def local(frame, event, arg):
        if event == "line" and left[0] > 0:
            left[0] -= 1
            if left[0] == 0:
                ran[0] = True
                sys.settrace(None)
                other()
                return None
        return local

    def glob(frame, event, arg):
        return local if left[0] > 0 and \
            _is_auxi(frame.f_code.co_filename) else None
    sys.settrace(glob)
    try:
        result = fn()
    finally:
        sys.settrace(None)
    return ran[0], result
