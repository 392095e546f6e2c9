#!/bin/bash
# builds the IR dumper once (a check builds it itself when it is missing)
cd "$(dirname "$0")" || exit 1
exec python3 -c "
import sys; sys.path.insert(0,'engine')
import build, tempfile, shutil
d=tempfile.mkdtemp()
print(build.Build(d).irdump())
shutil.rmtree(d)"
