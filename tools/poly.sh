#!/bin/bash
# Copies the crates for `sched` out of /repo's working tree into target/poly. With `all`, every
# mention of the platform's atomics, whatever the features, becomes one of the scheduled ones.
d=${VERIF:?}/target/poly
rm -rf "$VERIF/target/poly"
mkdir -p "$d"
cp -r /repo/static-alloc /repo/alloc-traits "$d/" || exit 1
[ "$1" = all ] || exit 0
find "$d/static-alloc/src" -name '*.rs' -exec sed -i -E 's/\b(core|std)::sync::atomic\b/atomic_polyfill/g; s/feature = "polyfill"/feature = "polyfill_off"/g' {} +
