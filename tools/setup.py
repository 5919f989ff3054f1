"""setup_cmd: checks that the interpreters the checks need are there."""
import subprocess
subprocess.run(['/opt/veriftools/pyvenv/bin/python', '-c', 'import z3'],
               check=True)
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy'], check=True)
# An assumption of the text contracts, checked over all code points.
for interp in ('/opt/venv/bin/python', '/opt/veriftools/pyvenv/bin/python'):
  subprocess.run([interp, '-c', (
      'import sys\n'
      'for i in range(sys.maxunicode + 1):\n'
      '  c = chr(i)\n'
      '  k = (c.isupper(), c.islower(), c.isdigit(), c.isspace())\n'
      '  assert sum(k) <= 1, (i, k)\n')], check=True)
print('ok')
