#!/bin/bash
# run.sh <property> [quick|thorough]  |  run.sh replay <file>
exec env -u PYTHONPATH -u PYTHONHOME PYTHONDONTWRITEBYTECODE=1 /opt/vp/venv/bin/python "$(dirname "$(readlink -f "$0")")/checks/check.py" "$@"
