"""Injects an exception at the k-th executed line of the code under test"""
import os
import sys

from core import REPO

PREFIX = (os.path.realpath(REPO) + os.sep, REPO + os.sep)


class InjectedFault(Exception):
    pass


class Injector:
    def __init__(self, at=None, exc=InjectedFault):
        self.at = at
        self.exc = exc
        self.lines = 0
        self.where = None

    def local(self, frame, event, arg):
        if event == "line" and self.where is None:
            self.lines += 1
            if self.at is not None and self.lines == self.at:
                self.where = "%s:%d %s" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name)
                sys.settrace(None)
                raise self.exc("injected at line event %d" % self.at)
        return self.local

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return self.local
        return None

    def run(self, fn):
        """returns the exception that came out, or None"""
        sys.settrace(self.tracer)
        try:
            fn()
        except Exception as e:
            return e
        finally:
            sys.settrace(None)
        return None
