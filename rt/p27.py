"""Runtime contracts of call extraction."""
from rt import p25


def runtime_contracts():
  return [p25.Calls()]
