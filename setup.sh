#!/bin/bash
# builds the helper module once; the checks rebuild everything else from /repo
cd "$(dirname "$(readlink -f "$0")")" && exec env -u PYTHONPATH -u PYTHONHOME PYTHONDONTWRITEBYTECODE=1 /opt/vp/venv/bin/python -c "
import sys; sys.path.insert(0,'lib')
import pnbuild; print(pnbuild.ndmod())"
