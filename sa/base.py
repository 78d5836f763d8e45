"""Obligations, verdicts and helpers shared by the rules."""
import json
import os
import time

from .program import Program, AnchorMissing
from .terms import *
from . import terms as TT
from .interp import Interp, Budget, entails, bounds, Ev

OK, BAD, UNDEC = 'ok', 'violation', 'undecided'


class Check:
    """Collects the obligations of one property."""

    def __init__(self, pid, prog, tier='quick'):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.obs = []
        self.functions, self.calls = set(), 0
        self.notes = []
        self.quoted = []
        self.errors = []

    def ob(self, rule, where, verdict, detail='', key=None):
        if isinstance(verdict, bool):
            verdict = OK if verdict else BAD
        w = where.where() if isinstance(where, Ev) else str(where)
        o = dict(rule=rule, where=w, verdict=verdict, detail=str(detail)[:1500], key=key or '')
        for p in self.obs:
            if p['rule'] == rule and p['where'] == w and p['verdict'] == verdict and (p['detail'] == o['detail'] or verdict == OK):
                return o
        self.obs.append(o)
        return o

    def ok(self, rule, where, detail=''):
        return self.ob(rule, where, OK, detail)

    def bad(self, rule, where, detail, key=None):
        return self.ob(rule, where, BAD, detail, key)

    def undec(self, rule, where, detail=''):
        return self.ob(rule, where, UNDEC, detail)

    def interp(self, **k):
        it = Interp(self.prog, **k)
        it.quoted = self.quoted
        return it

    def run(self, func, cls=None, args=None, fields=None, guards=(), **k):
        it = self.interp(**k)
        r = it.run(func, cls=cls, args=args, fields=fields, guards=guards)
        self.functions |= it.analysed
        self.calls += len(it.events)
        return r

    def run_inst(self, cls, method, args=None, init=None, guards=(), **k):
        it = self.interp(**k)
        r = it.run_on_instance(cls, method, args, init, guards)
        self.functions |= it.analysed
        self.calls += len(it.events)
        return r


def feasible(guards):
    """False when the facts contradict each other (simple propagation)."""
    s = set(guards)
    if FALSE in s:
        return False
    for g in guards:
        if neg(g) in s:
            return False
        if g.op == 'or' and all(entails(s - {g}, x) is FALSE for x in g.a):
            return False
    for g in guards:
        if entails(s - {g}, g) is FALSE:
            return False
    return True


def has_unknown(t):
    return contains(t, is_unknown)


def is_unknown(x):
    return x.op in ('unk', 'murk', 'any', 'bottom', 'rowsq', 'rowvals', 'missing', 'name') or \
        (x.op == 'coll' and any(c[0] is None for c in x.a[1]))


def has_unk(t):
    """like has_unknown, but selections / projections by a computed query count as uninterpreted functions"""
    return contains(t, lambda x: x.op not in ('rowsq', 'rowvals') and is_unknown(x))


def has_mu(t):
    return contains(t, lambda x: x.op == 'mu')


def leaves(t):
    return [(gs, v) for gs, v in alts(t) if feasible(gs)]


def is_call(t, *names):
    """Opaque call term whose callee's last component is in names."""
    if t.op != 'call':
        return False
    f = t.a[0]
    n = f.a[0].split('.')[-1] if f.op == 'ext' else f.a[1] if f.op == 'attr' else f.a[0].split('.')[-1] if f.op == 'func' else ''
    return n in names


def call_recv(t):
    return t.a[0].a[0] if t.a[0].op == 'attr' else None


def strip_wrap(t, *names):
    while is_call(t, *names) and t.a[1]:
        t = t.a[1][0]
    return t


def roots(it, t):
    """Root locations a mutated receiver belongs to: set of ('ref',oid) | term."""
    out = set()
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ref':
            out.add(x)
        elif x.op in ('alt', 'any'):
            todo.extend(v for _, v in alts(x))
        elif x.op == 'idx' or x.op == 'fld':
            todo.append(x.a[0])
        elif x.op == 'coll' and x in it.frozen_of:
            for o in it.frozen_of[x]:
                out.add(mk('ref', o))
        else:
            out.add(x)
    return out


def param(func, name):
    return mk('param', func.qual, name)
