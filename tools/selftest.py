#!/usr/bin/env python3
"""setup_cmd: the framework is plain Python and needs no build; checks that its interpreter and libraries are there."""
import subprocess, sys
sys.exit(subprocess.call(["/opt/venv/bin/python", "-B", "-c",
                          "import sys, networkx, pandas, pydotplus; assert sys.version_info >= (3, 12); print('ready')"]))
