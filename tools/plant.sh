#!/bin/bash
# Confirms planted bugs in a scratch copy: plant.sh ID... (builds, stable tests pass, demo passes without and fails with it)
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
S=/tmp/plantcopy
mkdir -p $S
rsync -a --delete /repo/ $S/ 2>/dev/null || { find $S -mindepth 1 -delete; cp -a /repo/. $S/; }
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $S checkout -q -- . 
  D=$(mktemp -d /tmp/demodir.XXXX); cp -a $d/. $D/; find $D -name '*.diff' -delete; find $D -name meta.json -delete
  ok=1
  (cd $S && cargo build --workspace --offline -q 2>/dev/null) || { echo "$id: clean build failed"; continue; }
  for i in $(seq ${N:-3}); do (cd $S && timeout 300 bash $D/demo.sh >/tmp/demo.$id.clean 2>&1) || { echo "$id: demo fails on the clean tree: $(tail -1 /tmp/demo.$id.clean)"; ok=0; }; done
  git -C $S apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd $S && cargo build --workspace --offline -q 2>/tmp/plant.build) || { echo "$id: does not build"; tail -30 /tmp/plant.build; continue; }
  t=$(cd $S && cargo test --workspace --offline 2>&1 | grep -c '\.\.\. ok')
  [ "$t" -ge 11 ] || { echo "$id: only $t tests pass"; ok=0; }
  for i in $(seq ${N:-3}); do
    if (cd $S && timeout 300 bash $D/demo.sh >/tmp/demo.$id.bug 2>&1); then echo "$id: demo passes with the bug"; ok=0; fi
  done
  git -C $S checkout -q -- .
  find $D -delete
  [ $ok = 1 ] && echo "$id: confirmed ($(tail -1 /tmp/demo.$id.bug | cut -c1-150))"
done
