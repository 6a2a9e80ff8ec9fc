"""Deterministic mixing algorithms with state, for driving dynamic mixtures (import after boot)."""
import json

import numpy as np

from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm


class Wave(DynamicMixingAlgorithm):
    """Weights follow the losses seen so far and a counter; only domains of the initial mixture get weight."""

    def __init__(self):
        super().__init__()
        self.calls = 0

    def calc_mixture(self, updated_at_client):
        self.calls += 1
        n = len(self.initial_mixture)
        base = np.zeros(n, dtype=np.float64)
        loss = np.resize(np.asarray(self.losses, dtype=np.float64), n) if len(self.losses) else np.zeros(n)
        base[:] = 0.05 + np.abs(loss) % 1.0 + (np.arange(n) + self.calls) % 3
        base[self.initial_mixture == 0] = 0
        return base / base.sum()


def make(kind):
    assert kind == "wave"
    return Wave()


class Echo(DynamicMixingAlgorithm):
    """Weights that tell exactly what was reported so far, and whether a report was the first one under a newer mixture."""

    def __init__(self, seed):
        super().__init__()
        self.seed = seed
        self.calls = 0
        self.fresh = 0

    def calc_mixture(self, updated_at_client):
        self.calls += 1
        self.fresh += bool(updated_at_client)
        n = len(self.initial_mixture)
        losses, counts = np.zeros(n), np.zeros(n)
        k = min(n, len(self.losses))
        losses[:k], counts[:k] = np.asarray(self.losses, dtype=np.float64)[:k], np.asarray(self.counts, dtype=np.float64)[:k]
        if (self.calls + self.seed) % 4 == 3:
            return None
        i = np.arange(n)
        w = 0.2 + np.floor(losses) % 7 + counts % 11 + (i * (self.seed + 3) + 2 * self.fresh + self.calls) % 5
        w[np.asarray(self.initial_mixture) == 0] = 0
        if (self.calls + self.seed) % 5 == 0 and (w > 0).sum() > 1:
            w[np.nonzero(w)[0][self.calls % (w > 0).sum()]] = 0
        return w / w.sum()


class EchoTwin:
    """What Echo says, with its own book-keeping of the reports."""

    def __init__(self, seed):
        self.seed = seed
        self.calls = self.fresh = 0
        self.newest = -1
        self.sums = {}
        self.initial_mixture = None

    def process_losses(self, losses, counts, mixture_id):
        for k, (x, c) in enumerate(zip(losses, counts)):
            old = self.sums.get(k, (np.float32(0), 0))
            self.sums[k] = (np.float32(old[0] + np.float32(x)), old[1] + int(c))
        if mixture_id > self.newest:
            self.newest = mixture_id
            self.fresh += 1
        self.calls += 1
        n = len(self.initial_mixture)
        if (self.calls + self.seed) % 4 == 3:
            return None
        w = np.zeros(n)
        for k in range(n):
            x, c = self.sums.get(k, (0.0, 0))
            w[k] = 0.2 + np.floor(float(x)) % 7 + c % 11 + (k * (self.seed + 3) + 2 * self.fresh + self.calls) % 5
        w[np.asarray(self.initial_mixture) == 0] = 0
        if (self.calls + self.seed) % 5 == 0 and (w > 0).sum() > 1:
            w[np.nonzero(w)[0][self.calls % (w > 0).sum()]] = 0
        return w / w.sum()


class Echo2(Echo):
    """Like Echo, but often without any change."""

    def calc_mixture(self, updated_at_client):
        w = super().calc_mixture(updated_at_client)
        if w is None or (self.calls + self.seed) % 3 == 0:
            return None if w is None else np.where(np.asarray(self.initial_mixture) > 0, self.initial_mixture, 0.0) / float(np.sum(self.initial_mixture))
        return w


class Recorder(Wave):
    """Notes in a file what arrives."""

    def __init__(self, path):
        super().__init__()
        self.path = path

    def process_losses(self, losses, counts, mixture_id):
        with open(self.path, "a", encoding="ascii") as f:
            f.write(json.dumps([np.asarray(losses, dtype=float).tolist(), np.asarray(counts, dtype=float).tolist(), int(mixture_id)]) + "\n")
        return super().process_losses(losses, counts, mixture_id)
