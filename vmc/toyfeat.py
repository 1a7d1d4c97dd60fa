"""Importable toy featurizers (so that reloading by module and class name works) and toy records."""
import pandas as pd

from beep.features.base import BEEPFeaturizer


class _Toy(BEEPFeaturizer):
    def validate(self):
        return True, None

    def create_features(self):
        hp = self.hyperparameters
        self.features = pd.DataFrame({"x": [float(hp["k"])], "y": [float(len(hp["w"]))]})


class ToyA(_Toy):
    DEFAULT_HYPERPARAMETERS = {"k": 1, "w": [1, 2]}


class ToyB(_Toy):
    DEFAULT_HYPERPARAMETERS = {"k": 1, "w": [1, 2]}


class ToyW(_Toy):
    DEFAULT_HYPERPARAMETERS = {}


def default_snapshot():
    import json
    return json.dumps([ToyA.DEFAULT_HYPERPARAMETERS, ToyB.DEFAULT_HYPERPARAMETERS])


def datapath(path, structured=True, **meta):
    from beep.structure.arbin import ArbinDatapath
    md = {"barcode": "bc", "protocol": "Toy_000001.000", "channel_id": 3}
    md.update(meta)
    dp = ArbinDatapath(raw_data=None, metadata=md, paths={"raw": path + ".csv", "structured": path} if path else {"raw": "/nofile.csv"})
    if structured:
        dp.structured_summary = pd.DataFrame({"cycle_index": [0, 1], "discharge_capacity": [1.0, 0.9]})
        dp.structured_data = pd.DataFrame({"cycle_index": [0, 1]})
    return dp


class CliA(BEEPFeaturizer):
    """One row computed from the record and the hyperparameters."""
    DEFAULT_HYPERPARAMETERS = {"k": 1, "w": [1, 2]}

    def validate(self):
        return True, None

    def create_features(self):
        hp = self.hyperparameters
        cap = float(sum(self.datapath.structured_summary["discharge_capacity"]))
        self.features = pd.DataFrame({"x": [cap * hp["k"]], "y": [float(sum(hp["w"]))]})
        hp["w"].append(100)


class CliB(CliA):
    DEFAULT_HYPERPARAMETERS = {"k": 3, "w": [4]}


class CliInvalid(CliA):
    """Does not apply to records of the item b2."""

    def validate(self):
        return (False, "item b2 has no such data") if self.datapath.metadata.barcode == "b2" else (True, None)


class CliRaise(CliA):
    """Fails part-way on records of the item b2."""

    def create_features(self):
        super().create_features()
        if self.datapath.metadata.barcode == "b2":
            self.features = None
            raise KeyError("no column")
