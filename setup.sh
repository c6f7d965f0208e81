#!/bin/bash
# Warms the extension cache (checks rebuild what they need by themselves).
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -m mc.build
