#!/bin/bash
# Build every checker from the committed files.
cd "$(dirname "$0")" || exit 2
for b in mc-core mc-typed mc-embed mc-lsp mc-gogen mc-impl ffi cli; do tools/build.sh $b || exit 2; done
