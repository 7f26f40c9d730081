"""A stand-in cluster: stores parameters, runs nothing; acquisition data are put in by the harness."""

from __future__ import annotations

from types import SimpleNamespace

from qcodes.instrument import Instrument
from quantify_scheduler.instrument_coordinator.components import qblox as ic


class Param:
    def __init__(self, log, path):
        self._log, self._path = log, path
        self._v, self.valid = None, False
        self.cache = _Cache(self)

    def __call__(self, *a):
        if not a:
            return self._v
        self._v, self.valid = a[0], True
        self._log.append((self._path, a[0]))

    set = __call__

    def get(self):
        return self._v


class _Cache:
    def __init__(self, p):
        self.p = p

    @property
    def valid(self):
        return self.p.valid

    def __call__(self):
        return self.p._v


class Params(dict):
    def __init__(self, log, path):
        super().__init__()
        self.log, self.path = log, path

    def __contains__(self, k):
        return isinstance(k, str)

    def __getitem__(self, k):
        if not dict.__contains__(self, k):
            dict.__setitem__(self, k, Param(self.log, (*self.path, k)))
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        return self[k]


class Node:
    def __init__(self, log, path):
        self.parameters = Params(log, path)
        self.submodules, self.functions = {}, {}
        self.name = "_".join(map(str, path))
        self.calls = []

    def set(self, k, v):
        self.parameters[k].set(v)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k.endswith(("_cal",)):
            return lambda *a: self.calls.append((k, a))
        return self.parameters[k]


KINDS = {
    # qcm, qrm, rf, qtm, qrc, number of sequencers
    "QCM": (True, False, False, False, False, 6),
    "QRM": (False, True, False, False, False, 6),
    "QCM_RF": (True, False, True, False, False, 6),
    "QRM_RF": (False, True, True, False, False, 6),
    "QRC": (False, False, True, False, True, 12),
    "QTM": (False, False, False, True, False, 8),
}


class Module(Node):
    def __init__(self, log, cluster, slot, kind):
        super().__init__(log, (slot,))
        self.name = f"{cluster}_module{slot}"
        self.slot_idx = slot
        a, b, c, d, e, n = KINDS[kind]
        self.is_qcm_type, self.is_qrm_type, self.is_rf_type, self.is_qtm_type, self.is_qrc_type = a, b, c, d, e
        self.sequencers = [Node(log, (slot, "seq", i)) for i in range(n)]
        self.io_channels = [Node(log, (slot, "io", i)) for i in range(n)]
        self.is_dummy = False
        self.data = {}
        self.parent = None
        self.stored, self.deleted, self.armed = [], [], []

    def get_acquisitions(self, seq):
        return self.data.get(seq, {})

    def store_scope_acquisition(self, seq, name):
        self.stored.append((seq, name))

    def delete_acquisition_data(self, sequencer, all=False):
        self.deleted.append(sequencer)

    def arm_sequencer(self, sequencer):
        self.armed.append(sequencer)

    def stop_sequencer(self):
        pass


class Cluster(Node):
    def __init__(self, name, kinds):
        self.log = []
        super().__init__(self.log, ("cluster",))
        self.name = name
        self.modules = [Module(self.log, name, s, k) for s, k in kinds.items()]
        self.time = SimpleNamespace(sync_ext_trigger=lambda **k: self.calls.append(("sync", k)))

    def module(self, slot):
        return next(m for m in self.modules if m.slot_idx == slot)

    def stop_sequencer(self):
        self.calls.append(("stop", ()))

    def start_sequencer(self):
        self.calls.append(("start", ()))


class Component(ic.ClusterComponent):
    instrument = property(lambda self: self._fake)

    def __new__(cls, instrument):
        obj = super().__new__(cls, instrument)
        obj.__dict__["_fake"] = instrument
        return obj

    def __getattr__(self, k):
        if k == "_fake":
            return self.__dict__["_fake"]
        return super().__getattr__(k)


def component(kinds, name="c0"):
    """(component, cluster) with the given {slot: kind}."""
    Instrument.close_all()
    c = Cluster(name, kinds)
    return Component(c), c
