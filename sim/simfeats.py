"""Custom featurizers, as a user of the CLI may name them (sim.simfeats.X)."""
import pandas as pd

from beep.features.base import BEEPFeaturizer, BEEPFeaturizationError


class SimMean(BEEPFeaturizer):
    DEFAULT_HYPERPARAMETERS = {"column": "discharge_capacity", "scale": 1.0, "opts": {"power": 1}}

    def validate(self):
        if self.hyperparameters["column"] not in self.datapath.structured_summary.columns:
            return False, "no column %s" % self.hyperparameters["column"]
        return True, None

    def create_features(self):
        s = self.datapath.structured_summary[self.hyperparameters["column"]]
        k = self.hyperparameters["scale"]
        p = self.hyperparameters["opts"]["power"]
        self.features = pd.DataFrame({"mean": [float(s.mean()) * k], "n": [int(len(s))],
                                      "spread": [float(s.max() - s.min()) ** p * k]})


class SimPick(BEEPFeaturizer):
    """fails on some inputs, with different kinds of errors"""
    DEFAULT_HYPERPARAMETERS = {"mode": "ok", "modulus": 2}

    def validate(self):
        if self.hyperparameters["mode"] == "invalid":
            return False, "declared invalid"
        return True, None

    def create_features(self):
        m, n = self.hyperparameters["mode"], int(len(self.datapath.structured_summary))
        if n % self.hyperparameters["modulus"] == 0:
            if m == "value":
                raise ValueError("simulated featurizer failure with \"quotes\"")
            if m == "base":
                raise BEEPFeaturizationError("simulated featurization error")
            if m == "key":
                {}["missing"]
            if m == "memory":
                raise MemoryError()
            if m == "exit":
                raise SystemExit(3)
            if m == "two-rows":
                self.features = pd.DataFrame({"cycles": [n, n]})
                return
        last = self.datapath.structured_summary["charge_capacity"].iloc[-1]
        self.features = pd.DataFrame({"cycles": [n], "last": [float(last)]})


class SimAny(BEEPFeaturizer):
    """holds given features"""
    DEFAULT_HYPERPARAMETERS = {"tag": "a", "opts": {"x": [1, 2.5]}}

    def validate(self):
        return True, None

    def create_features(self):
        self.features = pd.DataFrame({"x": [1.0]})
