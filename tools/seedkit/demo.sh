#!/bin/bash
# cwd: the repository.  Runs the application's own sources on the emulated device in kit/.
exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
