#!/bin/bash
# Nothing to build: the code under test is pure Python imported from /repo.
# Confirms the interpreter and the import work offline.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$HERE" && mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$HERE" /opt/venv/bin/python -c "import vk.runner, kmcpy; print('setup ok', kmcpy.__file__)"
