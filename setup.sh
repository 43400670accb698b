#!/bin/bash
# builds the parser front end (offline)
cd "$(dirname "$0")" || exit 1
(cd rsast && cargo build --offline -q) || exit 1
exit 0
