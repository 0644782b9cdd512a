#!/bin/bash
# run in the repository; exit 0 when the behaviour is right
exec python3 "$(cd "$(dirname "$0")" && pwd)/run.py"
