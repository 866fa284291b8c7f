"""Shared analysis context: the linked IR of the current tree."""
import time
import irparse
from build_ir import Build, BuildError, REPO
from monoms import MonomLayout, Anchor
from fw import Broken


class Ctx:
    def __init__(self, tier='quick', ll=None, drivers=('driver.cpp',), asserts=False):
        self.drivers, self.asserts = drivers, asserts
        self.tier = tier
        self.t0 = time.time()
        self.max_steps = 200000 if tier == 'quick' else 2000000
        self.ll = ll
        self._mod = None
        self._ml = None
        self.build = None

    @property
    def mod(self):
        if self._mod is None:
            if self.ll:
                self._mod = irparse.Module(self.ll)
                self.prefix = '/tmp/irk'
            else:
                with Build(self.drivers, asserts=self.asserts) as b:
                    self._mod = irparse.Module(b.ll)
                    self.build = b
        return self._mod

    def repo_path(self, p):
        if self.build:
            return self.build.repo_path(p)
        return p.replace('/tmp/irk', REPO)

    @property
    def monom_layout(self):
        if self._ml is None:
            try:
                self._ml = MonomLayout(self.mod)
            except Anchor as e:
                raise Broken(str(e))
        return self._ml
