"""Nothing to build: the checks import /repo directly. Confirms the imports."""

import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
code = "import sys; sys.path.insert(0, 'sim'); import env, core; print('ok')"
sys.exit(subprocess.call([sys.executable, "-c", code], cwd=HERE))
