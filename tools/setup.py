#!/usr/bin/env python3
"""Nothing has to be prepared: the checks build what they need. Tell which tools they will find."""
import os
import shutil

for tool in ('/usr/bin/g++-11', '/usr/bin/clang++-18', '/opt/vp/venv/bin/python'):
    print(tool, 'found' if shutil.which(tool) or os.path.exists(tool) else 'missing')
