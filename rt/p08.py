from rt import treechecks as t


def runtime_contracts():
  return [t.Strip(), t.StripOfInsert(), t.SingleNodes(), t.Subsequences(), t.EarlyExit(), ]
