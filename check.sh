#!/bin/bash
# check.sh ID [quick|thorough]: build the harness against /repo's working tree and run one check
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export AFMT_VERIF="$PWD" AFMT_CORPUS="$PWD/corpus"
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
if ! (cd harness && cargo build --release --offline --target-dir ../target) >"$log" 2>&1; then
  tail -40 "$log"
  echo "build failed"
  exit 2
fi
target/release/afmt-verify check "$@"
