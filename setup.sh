#!/bin/bash
# Builds the monitors. Checks build them again, from /repo's current tree.
cd "$(dirname "$0")/harness" && cargo build --offline --bin vmon
