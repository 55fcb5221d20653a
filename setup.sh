#!/bin/bash
# Nothing is built: the checks import /repo/differt2d (editable install of /opt/venv) from the working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg /opt/venv/bin/python - <<'P'
import differt2d, jax, equinox, optax, numpy, os
assert os.path.realpath(os.path.dirname(differt2d.__file__)) == "/repo/differt2d", differt2d.__file__
print("setup ok", jax.__version__)
P
