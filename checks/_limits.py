"""Stub models with analytic spectra for the limit checks (no extension modules needed)."""
import numpy as np

SPECTRA = {
    "power": lambda e: np.asarray(e, float) ** -1.5,
    "flat": lambda e: 0.02 + 0.0 * np.asarray(e, float),
    "hump": lambda e: np.exp(-0.5 * ((np.asarray(e, float) - 40.0) / 10.0) ** 2),
    "low": lambda e: np.where(np.asarray(e, float) < 3.0, 0.3, 0.0),
    "zero": lambda e: np.zeros_like(np.asarray(e, float)),
}


def make(kind, mx, spec, scale=1.0, e_cm_dependent=True, lines=None):
    """A one-channel model; an annihilation spectrum depends on e_cm so a wrong e_cm shows."""
    from hazma.theory import TheoryAnn, TheoryDec
    base = SPECTRA[spec]

    def boost(e_cm):
        return 1.0 + 200.0 * (e_cm / (2 * mx) - 1.0) if e_cm_dependent else 1.0

    if kind == "ann":
        class M(TheoryAnn):
            def __init__(self):
                self.mx = mx

            @staticmethod
            def list_annihilation_final_states():
                return ["a b", "g g"]

            def _annihilation_cross_section_funcs(self):
                return {"a b": lambda e_cm: 3.0, "g g": lambda e_cm: 1.0}

            def annihilation_cross_section_funcs(self):
                return self._annihilation_cross_section_funcs()

            def _spectrum_funcs(self):
                return {"a b": lambda e, e_cm: scale * boost(e_cm) * base(e) / 0.75, "g g": lambda e, e_cm: 0.0 * base(e)}

            def _positron_spectrum_funcs(self):
                return {"a b": lambda e, e_cm: 0.0 * base(e), "g g": lambda e, e_cm: 0.0 * base(e)}

            def _gamma_ray_line_energies(self, e_cm):
                return {"g g": e_cm / 2} if lines else {}

            def _positron_line_energies(self, e_cm):
                return {}

            def constraints(self):
                return {}

            @staticmethod
            def relic_density(*a):
                return 0.1
    else:
        class M(TheoryDec):
            def __init__(self):
                self.mx = mx

            @staticmethod
            def list_decay_final_states():
                return ["a b", "g g"]

            def _decay_widths(self):
                return {"a b": 3.0, "g g": 1.0}

            def _spectrum_funcs(self):
                return {"a b": lambda e: scale * base(e) / 0.75, "g g": lambda e: 0.0 * base(e)}

            def _positron_spectrum_funcs(self):
                return {"a b": lambda e: 0.0 * base(e), "g g": lambda e: 0.0 * base(e)}

            def _gamma_ray_line_energies(self):
                return {"g g": self.mx / 2} if lines else {}

            def _positron_line_energies(self):
                return {}

            def constraints(self):
                return {}
    class Memo(M):
        """The convolution (property C03) is the costly step; equal questions are answered once."""

        def total_conv_spectrum_fn(self, *a, **k):
            key = (kind, self.mx, spec, scale, e_cm_dependent, bool(lines), a, tuple(sorted(k.items())))
            if key not in _MEMO:
                if len(_MEMO) > 400:
                    _MEMO.clear()
                _MEMO[key] = super().total_conv_spectrum_fn(*a, **k)
            return _MEMO[key]

    return Memo()


_MEMO = {}
