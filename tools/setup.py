"""Nothing to build: checks that the offline tools are there."""
import os
import sys

sys.path.insert(0, os.environ.get('RENE_ROOT', '/repo'))
import rithm  # noqa: E402,F401
import typing_extensions  # noqa: E402,F401
import z3  # noqa: E402

print('z3', z3.get_version_string())
