#!/bin/bash
# Development aid: try.sh PATCH ID... — run checks against a scratch copy of /repo with a change applied.
set -u
P=$(realpath "$1"); shift
W=${TRY_DIR:-/tmp/mt}
mkdir -p "$W/out"
if [ ! -d "$W/repo/.git" ]; then git clone -q /repo "$W/repo"; cp /repo/Cargo.lock "$W/repo/" 2>/dev/null; fi
git -C "$W/repo" fetch -q /repo HEAD && git -C "$W/repo" checkout -q -f FETCH_HEAD
mkdir -p "$W/sim"
rsync -a --delete --exclude target /verif/sim/ "$W/sim/" 2>/dev/null || cp -ru /verif/sim/src /verif/sim/Cargo.toml /verif/sim/Cargo.lock "$W/sim/"
sed -i "s#path = \"/repo\"#path = \"$W/repo\"#" "$W/sim/Cargo.toml"
[ -d "$W/sim/target" ] || cp -a /verif/sim/target "$W/sim/target"
if [ "$P" != /dev/null ]; then git -C "$W/repo" apply "$P" || exit 2; fi
cp /verif/known-findings.txt "$W/out/"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
( cd "$W/sim" && find "$W/repo/src" -name '*.rs' -newermt '1970-01-01' -exec touch {} + ; cargo build --release --offline >"$W/build.log" 2>&1 ) || { grep -E '^error' -A8 "$W/build.log" | head -30; exit 2; }
for id in "$@"; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_ROOT="$W/out" SIM_MIN_S=${SIM_MIN_S:-3} "$W/sim/target/release/sim" check "$id" > "$W/out/$id.log" 2>&1
  echo "$id rc=$? $(grep -E 'violates' "$W/out/$id.log" | cut -c1-160)"
done
