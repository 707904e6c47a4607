#!/bin/bash
. /opt/vp/env.sh; cd /verif/harness; CARGO_TARGET_DIR=/verif/.target/harness cargo build --release --offline 2>&1 | grep -v "^warning: .seshat" | grep -A14 "^error\|vharness\|-> src" | head -${1:-80}
