#!/bin/bash
# bash check.sh <property> [--replay FILE]: decides one property against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
repo=${VERIF_REPO:-/repo}
export VERIF_REPO=$repo HOME=${HOME:-/root}
export PYTHONPATH=$repo:$here PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy no_proxy NO_PROXY REQUESTS_CA_BUNDLE CURL_CA_BUNDLE
exec /opt/venv/bin/python run.py "$@"
