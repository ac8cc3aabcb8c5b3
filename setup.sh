#!/bin/bash
# Nothing is compiled: the checks import /repo's working tree. Verify that it can be imported.
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import rocketry"
