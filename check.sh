#!/bin/bash
# check.sh ID [more arguments]: builds the simulator against /repo's working tree and runs one property's check.
# Exit 0: held on everything explored; 1: VIOLATION printed; anything else: the check itself failed.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; shift
. "$here/tools/build.sh" || exit 2
cd "$here"
exec "$here/target/debug/onisim" check "$id" "$@"
