"""Run several threads one at a time, and switch between them at chosen points.

A thread stops after a given number of events (lines or instructions) executed in the code under test, which are counted
by a trace function; everything between two events runs without interruption.
"""

import os
import sys
import threading

import qp

ROOT = os.path.dirname(os.path.abspath(qp.__file__)) + os.sep


class Thread:
    def __init__(self, fn, opcodes=False):
        self.fn = fn
        self.opcodes = opcodes
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.budget = 0
        self.events = 0
        self.where = []
        self.done = False
        self.result = None
        self.error = None
        self.blocked = False
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()

    def _event(self, frame):
        if self.budget == 0:
            self.where.append("%s:%i" % (frame.f_code.co_filename[len(ROOT) :], frame.f_lineno))
            self.back.release()
            self.go.acquire()
        self.budget -= 1
        self.events += 1

    def _local(self, frame, event, _arg):
        if event == ("opcode" if self.opcodes else "line"):
            self._event(frame)
        return self._local

    def _trace(self, frame, event, _arg):
        if event == "call" and frame.f_code.co_filename.startswith(ROOT):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _main(self):
        self.go.acquire()
        sys.settrace(self._trace)
        try:
            self.result = self.fn()
        except BaseException as err:  # pylint: disable=broad-except
            self.error = err
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def run(self, budget, wait=2.0):
        """Run for that many events (-1: to the end). False if it waits for another thread"""
        if self.done:
            return True
        if not self.blocked:
            self.budget = budget
            self.go.release()
        self.blocked = not self.back.acquire(timeout=wait)
        return not self.blocked


def run(fns, schedule, opcodes=False, limit=20.0):
    """schedule: list of (thread, events); afterwards the threads end one after the other. Returns the threads"""
    threads = [Thread(f, opcodes) for f in fns]
    for i, n in schedule:
        threads[i].run(n)
    todo = [i for i, _ in schedule] + list(range(len(threads)))
    for _ in range(3):
        for i in todo[::-1] if _ else todo:
            if not threads[i].done:
                threads[i].run(-1, 2.0 if any(not t.done and t is not threads[i] for t in threads) else limit)
        if all(t.done for t in threads):
            break
    return threads
