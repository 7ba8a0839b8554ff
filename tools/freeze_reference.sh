#!/bin/bash
# Re-freeze the reviewed reference from the tree given (default /repo). Only to be run after review.
set -e
R=${1:-/repo}; OUT=/verif/reference
mkdir -p "$OUT"
find "$OUT" -name '*.rs' -delete
cd "$R"
git ls-files 'crates/**/*.rs' | grep -E '^crates/[^/]+/src/|^crates/compiler/(src|[^/]+/src)/' | grep -vE '/tests/|_tests?\.rs$|^crates/test_utils/' | while read -r f; do
  mkdir -p "$OUT/$(dirname "$f")"; cp "$f" "$OUT/$f"
done
find "$OUT" -name '*.rs' | wc -l
