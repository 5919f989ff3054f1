from rt import treechecks as t


def runtime_contracts():
  return [t.Truncate(), ]
