#!/bin/bash
# builds the engine and the replay runtime from the committed sources
cd "$(dirname "$0")" && exec python3 -c "import check; check.ensure_tools()"
