#!/bin/bash
# Builds the extension modules of /repo's tree into the cache (each check rebuilds what changed).
cd "$(dirname "$(readlink -f "$0")")" && /opt/venv/bin/python -B -c "
from vf import env
for f in (env.build_core, env.build_cython):
    try:
        f()
    except env.BuildError as e:
        print(e)
print('ready')"
exit 0
