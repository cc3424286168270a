#!/bin/bash
# Copies /repo's crates to /verif/target/sched-src and lets the copy of prima_undine use mc_std for std.
set -e
src=/verif/target/sched-src
mkdir -p "$src"
for c in prima_undine prima_undine_derive; do
  rm -rf "/verif/target/sched-src/$c.new"
  cp -a "/repo/$c" "$src/$c.new"
done
printf '\nextern crate mc_std as std;\n' >>"$src/prima_undine.new/src/lib.rs"
python3 - "$src/prima_undine.new/Cargo.toml" <<'P'
import sys
p = sys.argv[1]
s = open(p).read()
assert s.count("[dependencies]\n") == 1
s = s.replace("[dependencies]\n", '[dependencies]\nmc_std = { path = "/verif/sched/mc_std" }\n')
open(p, "w").write(s)
P
for c in prima_undine prima_undine_derive; do
  # only what changed, so that cargo rebuilds only then
  if ! diff -rq "$src/$c.new" "$src/$c" >/dev/null 2>&1; then
    rm -rf "/verif/target/sched-src/$c"
    mv "$src/$c.new" "$src/$c"
    find "$src/$c" -type f -exec touch {} +
  else
    rm -rf "/verif/target/sched-src/$c.new"
  fi
done
