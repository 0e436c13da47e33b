#!/bin/bash
# Builds the executor and its runtime models from the committed sources.
set -e
cd "$(dirname "$0")"
python3 -c 'import check; check.ensure_engine()'
