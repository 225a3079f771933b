#!/bin/sh
# Nothing to compile: checks that the simulator loads the library from /repo.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore -m vsim.main one C02 --run 0 --seed 1 >/dev/null
