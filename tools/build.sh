# Sourced or run: builds the simulator (sim/) with /repo's crates as path dependencies into /verif/target.
_root="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$_root/target" CARGO_TERM_COLOR=never
export ONISIM_ROOT="$_root"
_log="$_root/target/build.log"
mkdir -p "$_root/target"
if ! (cd "$_root/sim" && cargo build --offline --quiet) >"$_log" 2>&1; then
  echo "onisim: the simulator does not build against /repo:"
  grep -E '^error' -A12 "$_log" | head -60
  false
fi
