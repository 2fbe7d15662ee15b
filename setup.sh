#!/bin/sh
# Builds the extractor and the harness (each check builds them again if they are missing).
cd "$(dirname "$0")" || exit 1
(cd extract && cargo build --offline -q) || exit 1
if [ -f harness/Cargo.toml ]; then (cd harness && cargo build --offline -q) || true; fi
