#!/bin/bash
# builds the AST extractor and the generated protobuf sources the checks use (checks rebuild them if missing)
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3-vt - <<'P'
import sys; sys.path.insert(0, 'engine')
import env
print(env.tool()); print(env.proto_dir())
P
