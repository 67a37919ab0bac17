#!/bin/bash
# (re)build the harness against /repo's working tree; sources are compared by content, not by mtime
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p out "$CARGO_TARGET_DIR"
h=$(cd /repo && find halo2_proofs halo2_gadgets halo2_poseidon -path '*/target' -prune -o \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.bin' -o -name '*.rdata' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
s="$CARGO_TARGET_DIR/.repo-stamp"
( flock 9
if [ ! -f "$s" ] || [ "$(cat "$s")" != "$h" ]; then
  ( cd engine && cargo clean --offline -p halo2_proofs -p halo2_gadgets -p halo2_poseidon -p hv ) 2>/dev/null
fi
( cd engine && cargo build --offline --locked ) || exit 1
echo "$h" > "$s"
) 9>"$CARGO_TARGET_DIR/.lock"
