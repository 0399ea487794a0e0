"""Checks that the tools the checks need are present (nothing to build)."""
import subprocess, sys
import z3, jsonschema
print('z3', z3.get_version_string())
for c in (['cvc5', '--version'], ['/opt/venv/bin/python', '-c', 'import mpmath; print(mpmath.__version__)']):
    print(subprocess.run(c, capture_output=True, text=True, check=True).stdout.splitlines()[0])
