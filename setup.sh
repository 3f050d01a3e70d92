#!/bin/bash
# builds the TLC operator overrides (checks build them too when they are missing)
cd "$(dirname "$0")" || exit 2
python3 lib/runner.py --build
