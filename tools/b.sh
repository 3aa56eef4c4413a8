#!/bin/bash
. /opt/vp/env.sh; cd /verif/sim; CARGO_TARGET_DIR=/verif/target cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${1:-80}
