#!/bin/bash
# builds the AST extractor and pre-compiles the harness objects for the current tree (both are also done on demand by the checks)
cd "$(dirname "$0")" || exit 1
exec /opt/veriftools/pyvenv/bin/python tools/setup.py
