from rt import parsing as t


def runtime_contracts():
  return [t.ToSequence(), t.ToSequenceOptions(), t.BadRanges(),
          t.ArbitraryRanges()]
