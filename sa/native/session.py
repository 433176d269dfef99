"""All entry functions of the compiled reader, interpreted once."""
import os

from ..load import AnalysisBroken
from . import cpp, cyx


class Kind(object):
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.entry = None
        self.error = None
        self.mfindings, self.unclears = [], []
        self.obligations = self.reads = 0

    @property
    def label(self):
        k = self.kind
        return k.decode('latin-1') if isinstance(k, bytes) else str(k)


class Session(object):
    def __init__(self, repo):
        self.cpath = os.path.join(repo, 'src/avb/_ext_core.cpp')
        self.pypath = os.path.join(repo, 'src/avb/_ext.pyx')
        for p in (self.cpath, self.pypath):
            if not os.path.exists(p):
                raise AnalysisBroken('%s is gone' % p)
        try:
            self.machine = cpp.Machine(self.cpath)
            self.unit = cyx.Unit(self.pypath)
        except cpp.Broken as e:
            raise AnalysisBroken(str(e))
        self.kinds = []
        self.error = None
        if not self.unit.readers:
            self.error = 'the table READERS is not recognised'
            return
        for kd, fn in sorted(self.unit.readers.items()):
            q = Kind(kd, fn)
            self.kinds.append(q)
            e = cyx.Entry(self.unit, self.machine, fn)
            try:
                e.run()
                q.entry = e
            except (cpp.Unclear, KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, RecursionError) as x:
                q.error = '%s%s' % ('' if isinstance(x, cpp.Unclear) else type(x).__name__ + ': ', x)
                if getattr(e, 'findings', None):
                    q.partial = e
            q.mfindings = list(self.machine.findings)
            q.unclears = list(self.machine.unclears)
            q.obligations = self.machine.obligations
            q.reads = self.machine.reads
