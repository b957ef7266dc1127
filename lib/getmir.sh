#!/bin/bash
# getmir.sh OUT : type-check /repo's current working tree with the MIR dumper and write the MIR
# of the library crate to OUT.crate.json and of the specification crate (../spec, which calls the
# library's public interface) to OUT.spec.json.  Exit 0 only if both dumps were written.
# exit 3: the library does not build; exit 4: the specification crate does not type-check
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
out=$(realpath -m "$1")
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export RUSTFLAGS="--cap-lints allow"
work=${VERIF_WORK:-$here/work}
mkdir -p "$work" || exit 3
exec 9>"$work/lock"; flock 9
drv="$here/driver/target/release/mirdump"
if [ ! -x "$drv" ] || [ "$here/driver/src/main.rs" -nt "$drv" ]; then
  (cd "$here/driver" && env -u CARGO_TARGET_DIR cargo build --release --offline) >"$work/driver.log" 2>&1 || { cat "$work/driver.log"; exit 3; }
fi
tgt="$work/target"
purge() { find "$tgt" -mindepth 1 -maxdepth 4 \( -name 'linestring*' -o -name 'lsspec*' -o -name 'liblinestring*' -o -name 'liblsspec*' \) -prune -exec rm -rf {} + 2>/dev/null; }
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export RUSTC_WORKSPACE_WRAPPER="$drv" CARGO_TARGET_DIR="$tgt" CARGO_INCREMENTAL=0
run() { # crate out dir
  rm -f "$2"
  purge
  (cd "$3" && MIRDUMP_ROOT=$4 MIRDUMP_CRATE=$1 MIRDUMP_OUT="$2" cargo check --lib --offline) >"$work/check-$1.log" 2>&1 || { tail -60 "$work/check-$1.log"; return 1; }
  if [ ! -s "$2" ]; then   # cargo thought it was fresh: start over
    rm -rf "$tgt"
    (cd "$3" && MIRDUMP_ROOT=$4 MIRDUMP_CRATE=$1 MIRDUMP_OUT="$2" cargo check --lib --offline) >"$work/check-$1.log" 2>&1 || { tail -60 "$work/check-$1.log"; return 1; }
  fi
  [ -s "$2" ] || { echo "MIR dump of $1 was not written"; return 1; }
}
run linestring "$out.crate.json" "$repo" crate || exit 3
sp="$work/spec"
rm -rf "$sp"; mkdir -p "$sp"
cp -r "$here/spec/." "$sp/"; rm -rf "$sp/target"
sed -i "s#path = \"/repo\"#path = \"$repo\"#" "$sp/Cargo.toml"
run lsspec "$out.spec.json" "$sp" spec || exit 4
