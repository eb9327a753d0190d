#!/bin/bash
# Warm build of everything; every check also builds what it needs by itself.
cd "$(dirname "$0")" || exit 2
export VERIF=$PWD
. ./env.sh
mkdir -p evidence replays target/log
cargo build --offline --manifest-path checks/Cargo.toml --features all || exit 1
tools/poly.sh all || exit 1
cargo build --offline --manifest-path sched/Cargo.toml --features c03 || exit 1
python3 tools/scope_args.py || exit 1
# The checks stand without it.
XDG_CACHE_HOME=$VERIF/target/xdg RUSTC_WRAPPER= cargo miri setup >target/log/miri.log 2>&1 || echo "note: no Miri, see target/log/miri.log"
