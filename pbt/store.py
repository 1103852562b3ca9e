"""Shared by the storage and loader properties: record model, key universe, a dict-based storage."""
import os
import struct
import tempfile

from hypothesis import strategies as st
from pysatl_criterion.persistence.models.limit_distribution import (
    CriticalValueQuery, ILimitDistributionStorage, LimitDistributionModel, LimitDistributionQuery)

CODES = ["KS", "KS_", "ks", "AD%", "INDEPENDENCENUMBER_EXPONENTIAL_GOODNESS_OF_FIT", "A'D"]
PARAMS = [[], [1.0], [1.0, 2.0], [2.0, 1.0], [12.0], [0.1], [0.30000000000000004], [0.3], [-0.0], [1e-300, 1e300]]
SIZES = [1, 5, 6, 7, 10, 50]
COUNTS = [1, 100, 104, 107, 1000, 1001, 10000]


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def scratch():
    d = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.TemporaryDirectory(prefix="pbt-store-", dir=d)


def vals():
    return st.lists(st.one_of(st.integers(-4, 8).map(lambda k: k / 4), st.floats(-1e6, 1e6), st.just(float("inf"))), max_size=5).map(
        lambda v: [x if x != float("inf") else 1e30 for x in v])


def keys():
    return st.tuples(st.integers(1, 3), st.integers(0, len(CODES) - 1), st.integers(0, len(PARAMS) - 1), st.sampled_from(SIZES),
                     st.sampled_from(COUNTS)).map(list)


def narrow():
    """Keys that collide often."""
    return st.tuples(st.integers(1, 2), st.integers(0, 2), st.integers(0, 2), st.sampled_from([5, 6]), st.sampled_from([1, 100])).map(list)


def record():
    return st.tuples(st.one_of(keys(), narrow(), narrow()), vals()).map(list)


def model(rec):
    (e, c, p, n, m), v = rec
    return LimitDistributionModel(e, CODES[c], list(PARAMS[p]), n, m, list(v))


def pk(m):
    return (m.experiment_id, m.criterion_code, tuple(repr(float(x)) for x in m.criterion_parameters), m.sample_size, m.monte_carlo_count)


def exact(m):
    return LimitDistributionQuery(m.criterion_code, list(m.criterion_parameters), m.sample_size, m.monte_carlo_count)


def content(m, rounded=True):
    """What a stored record must look like: key and the values at 32-bit precision."""
    return (pk(m), tuple(f32(v) if rounded else v for v in m.results_statistics))


def matches(store, code, size, err):
    return [r for r in store.values() if r[0][1] == code and size - err <= r[0][3] <= size + err]


class DictStorage(ILimitDistributionStorage):
    """Reference storage: exact values, keyed by the primary key; records every call."""

    def __init__(self):
        self.d = {}
        self.calls = []
        self.fail = False

    def init(self):
        pass

    def insert_data(self, data):
        self.calls.append("insert")
        if self.fail:
            raise RuntimeError("injected insert failure")
        self.d[pk(data)] = data

    def insert_bulk_data(self, models):
        self.calls.append("insert_bulk")
        if self.fail and models:
            raise RuntimeError("injected insert failure")
        for m in models:
            self.d[pk(m)] = m

    def get_data(self, query):
        self.calls.append("get")
        for m in self.d.values():
            if exact(m) == query:
                return m
        return None

    def get_data_for_cv(self, query):
        self.calls.append("get_cv")
        r = [m for m in self.d.values() if m.criterion_code == query.criterion_code and abs(m.sample_size - query.sample_size) <= query.sample_size_error]
        return max(r, key=lambda m: m.monte_carlo_count) if r else None

    def get_bulk_data(self, criterion_codes, sample_size, sample_size_error=0):
        self.calls.append("get_bulk")
        out = []
        for c in sorted(set(criterion_codes)):
            m = self.get_data_for_cv(CriticalValueQuery(c, sample_size, sample_size_error))
            if m is not None:
                out.append(m)
        return out

    def delete_data(self, query):
        self.calls.append("delete")
        for k in [k for k, m in self.d.items() if exact(m) == query]:
            del self.d[k]


class Wrapped(ILimitDistributionStorage):
    """A real storage with recorded calls and injected insert failures."""

    def __init__(self, inner):
        self.inner = inner
        self.calls = []
        self.fail = False

    def init(self):
        self.inner.init()

    def insert_data(self, data):
        self.calls.append("insert")
        if self.fail:
            raise RuntimeError("injected insert failure")
        return self.inner.insert_data(data)

    def insert_bulk_data(self, models):
        self.calls.append("insert_bulk")
        if self.fail and models:
            raise RuntimeError("injected insert failure")
        return self.inner.insert_bulk_data(models)

    def get_data(self, query):
        self.calls.append("get")
        return self.inner.get_data(query)

    def get_data_for_cv(self, query):
        self.calls.append("get_cv")
        return self.inner.get_data_for_cv(query)

    def get_bulk_data(self, criterion_codes, sample_size, sample_size_error=0):
        self.calls.append("get_bulk")
        return self.inner.get_bulk_data(criterion_codes, sample_size, sample_size_error)

    def delete_data(self, query):
        self.calls.append("delete")
        return self.inner.delete_data(query)
