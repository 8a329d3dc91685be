#!/bin/bash
# builds the AST extractor
cd "$(dirname "$0")" || exit 3
exec python3-vt -c 'from vc.run import build_tool; build_tool()'
