#!/bin/bash
# builds the harness once, so that the checks only rebuild what changed in /repo
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd harness && cargo build --release --offline --target-dir ../target
