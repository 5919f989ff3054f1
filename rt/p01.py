from rt import parsing as t


def runtime_contracts():
  return [t.Lossless(), t.Codec(), ]
