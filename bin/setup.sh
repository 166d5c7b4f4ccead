#!/bin/bash
# Builds the fact extractor and the model facts, and warms the dependency build.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
"$here/bin/build_models.sh"
out="$here/.build/facts-setup"
"$here/bin/extract.sh" "$out"
find "$out" -delete
