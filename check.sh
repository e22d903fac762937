#!/bin/bash
# usage: check.sh Cxx quick|thorough [--replay FILE]
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
exec /opt/venv/bin/python -m pbt.main "$@"
