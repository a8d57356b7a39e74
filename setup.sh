#!/bin/bash
# Nothing is built: the checks import /repo's working tree directly. Only verifies the tools.
cd "$(dirname "$0")" || exit 2
/opt/venv/bin/python -c "
from vh import env
env.import_hypothesis()
import jax, jaxlie, hypothesis, scipy, sksparse.cholmod, jaxfg
print('jaxfg from', jaxfg.__file__)
"
