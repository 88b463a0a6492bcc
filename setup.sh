#!/bin/bash
# Builds the fact extractor.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec python3 -c 'import sys; sys.path.insert(0, "engine"); import core; print(core.extractor())'
