"""Runtime contracts of the baselines."""
from rt import p25


def runtime_contracts():
  return [p25.PrefixBaselines(), p25.RegionBaselines()]
