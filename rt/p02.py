from rt import parsing as t


def runtime_contracts():
  return [t.Partition(), t.Match(), t.ValidRanges(), ]
