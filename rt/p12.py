from rt import treechecks as t


def runtime_contracts():
  return [t.Depth(), t.Render(), t.Debug(), t.Walk(), ]
