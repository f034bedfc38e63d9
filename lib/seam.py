"""Record what the code under test asks of the external decoders (ldpc's bposd_decoder, PyMatching's Matching).

The decoders themselves are trusted and stay in use; only the calls at this library boundary are observed: the matrix a
decoder was made for, the probabilities (or weights) in force when it decodes, the syndrome and the answer.
"""

from __future__ import annotations

import contextlib
import sys

import numpy as np


def _dense(x):
    return np.asarray(x.todense() if hasattr(x, "todense") else x)


class Event:
    def __init__(self, kind, pcm, probs, syndrome, answer):
        self.kind, self.pcm, self.probs, self.syndrome, self.answer = kind, pcm, probs, syndrome, answer


@contextlib.contextmanager
def recording():
    """-> list of Events, filled while the context is open."""
    import ldpc.osd
    import pymatching

    bp0, mw0 = ldpc.osd.bposd_decoder, pymatching.Matching
    log: list[Event] = []

    class BP:
        def __init__(self, *a, **k):
            self._d = bp0(*a, **k)
            self._h = _dense(k.get("parity_check_matrix", a[0] if a else None)).astype(int)
            p = k.get("channel_probs")
            if p is None or p[0] is None:
                p = [k.get("error_rate")] * self._h.shape[1]
            self._p = np.array(p, dtype=float)

        def update_channel_probs(self, p):
            self._p = np.array(p, dtype=float)
            return self._d.update_channel_probs(p)

        def decode(self, s, *a, **k):
            s0 = np.array(s).copy()
            r = self._d.decode(s, *a, **k)
            log.append(Event("bposd", self._h, self._p.copy(), s0, np.array(r).copy()))
            return r

        def __getattr__(self, x):
            return getattr(self._d, x)

    class MW:
        def __init__(self, *a, **k):
            self._d = mw0(*a, **k)
            self._h = _dense(a[0]).astype(int) if a else None
            w = k.get("weights", k.get("spacelike_weights"))
            self._p = None if w is None or self._h is None else 1 / (1 + np.exp(np.minimum(700, np.broadcast_to(np.asarray(w, dtype=float), (self._h.shape[1],)))))

        def decode(self, s, *a, **k):
            s0 = np.array(s).copy()
            r = self._d.decode(s, *a, **k)
            log.append(Event("matching", self._h, None if self._p is None else self._p.copy(), s0, np.array(r).copy()))
            return r

        def __getattr__(self, x):
            return getattr(self._d, x)

    old = []
    mods = [ldpc.osd, pymatching, *(m for n, m in list(sys.modules.items()) if n.startswith("mqt.qecc") and m is not None)]
    for m in mods:
        for name, val in list(vars(m).items()):
            if val is bp0 or val is mw0:
                old.append((m, name, val))
                setattr(m, name, BP if val is bp0 else MW)
    try:
        yield log
    finally:
        for m, name, val in old:
            setattr(m, name, val)


def soft_ok(probs, sigma):
    """Are these probabilities those of analog readouts with mean +-1 and deviation sigma?  -> None or the reason against it."""
    probs = np.asarray(probs, dtype=float).ravel()
    if sigma <= 0:
        return None if (probs <= 1e-9).all() else f"probability {probs.max():.3g} of an error in a perfect syndrome"
    with np.errstate(divide="ignore", over="ignore"):
        t = np.log((1 - probs) / np.maximum(probs, 1e-320)) * sigma**2 / 2
    import math

    n = len(t)
    mean = sigma * math.sqrt(2 / math.pi) * math.exp(-1 / (2 * sigma**2)) + math.erf(1 / (sigma * math.sqrt(2)))
    var = 1 + sigma**2 - mean**2
    a, b = float(t.mean()), float((t * t).mean())
    ta, tb = 6 * math.sqrt(var / n) + 1e-3, 6 * math.sqrt((4 * sigma**2 + 2 * sigma**4) / n) + 1e-3
    if abs(a - mean) > ta:
        return f"confidences of {n} readouts have mean {a:.3f}, noise of strength {sigma:.3f} has {mean:.3f} (tolerance {ta:.3f})"
    if abs(b - 1 - sigma**2) > tb:
        return f"confidences of {n} readouts have second moment {b:.3f}, noise of strength {sigma:.3f} has {1 + sigma**2:.3f} (tolerance {tb:.3f})"
    return None
