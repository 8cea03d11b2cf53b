"""Calls functions of the analysed crate on abstract states."""
from interp import *
import models
import terms


def name_sym(n, rank):
    t = sym(n)
    RANK[t] = rank
    return t


class Client:
    def __init__(self, F, **kw):
        self.F = F
        self.I = Interp(F)
        self.st = St({}, TRUE)

    def new(self, v, name='h'):
        return self.I.ref(self.I.newloc(self.st, v, name))

    def get(self, r):
        return self.I.load(self.st, r)

    def call(self, selfname, name, *args, trait=None):
        f = self.F.find(selfname, name, trait)
        return self.callf(f, *args)

    def callf(self, f, *args):
        if self.st is None:
            return None
        r = self.I.run(f, list(args), self.st)
        if r is None:
            self.st = None
            return None
        v, self.st = r
        return v

    def case(self, name, vname, *fs):
        return adt(name, self.F.variant(name, vname), *fs)
