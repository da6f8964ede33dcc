#!/bin/sh
# compiles the harness once (warming the Go build cache) and parses every module
cd "$(dirname "$0")" || exit 2
exec python3 -B py/setup.py
