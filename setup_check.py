#!/usr/bin/env python3
"""Nothing is compiled: see that the interpreter, the libraries and the working tree the checks need are there."""
import check
import subprocess
import sys

sys.exit(subprocess.run([check.PYTHON, '-c', 'from sim import runner, scenarios; runner.load_repo(); '
                         'print(len(scenarios.SCENARIOS), "scenarios")'], cwd=check.HERE, env=check.environment()).returncode)
