"""Real threads, one running at a time. Where control passes is decided by the Chooser: after a drawn number of
source lines of the code under test the baton goes to a drawn other thread."""
import sys
import threading

from . import repo
from .base import Hang

GAPS = [None, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610]      # 0: no further switch
WAIT = 100


class Baton:

    def __init__(self, chooser, limit=4000):
        self.chooser = chooser
        self.limit = limit
        self.switches = 0
        self.lines = 0
        self.prefix = repo.PKG
        self.order = []

    def run(self, fns):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.done = threading.Semaphore(0)
        self.errors = [None] * n
        self.now = None
        ts = [threading.Thread(target=self.body, args=(i, fns[i]), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self.gap()
        self.give(self.alive[self.chooser.choose(n)])
        if not self.done.acquire(timeout=WAIT):
            raise Hang("threads do not end")
        for t in ts:
            t.join(5)
        return self.errors

    def body(self, i, f):
        if not self.sem[i].acquire(timeout=WAIT):
            return
        sys.settrace(self.enter)
        try:
            f()
        except BaseException as e:
            self.errors[i] = e
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if self.alive:
                self.gap()
                self.give(self.alive[self.chooser.choose(len(self.alive))])
            else:
                self.done.release()

    def gap(self):
        g = GAPS[self.chooser.choose(len(GAPS))] if self.switches < self.limit else None
        self.left = g

    def give(self, i):
        self.now = i
        self.order.append(i)
        self.sem[i].release()

    def enter(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.left is not None:
                self.left -= 1
                if self.left <= 0:
                    self.switch()
        return self.line

    def switch(self):
        me = self.now
        others = [i for i in self.alive if i != me]
        if not others:
            self.left = None
            return
        self.switches += 1
        to = others[self.chooser.choose(len(others))]
        self.gap()
        self.give(to)
        if not self.sem[me].acquire(timeout=WAIT):
            raise Hang("thread is not resumed")
