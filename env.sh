# Shared by check.sh and setup.sh
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export VERIF_DIR=$PWD VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR RUST_LOG

# What cargo compares are modification times; what counts here is the content of the sources.
# sources_stamp: hash of everything that is compiled out of /repo.
sources_stamp() {
  (cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
# fresh <target dir> <manifest> <cargo toolchain flag or ''> : forget the artifacts of the repository's crates if the sources changed.
fresh() {
  local now; now=$(sources_stamp)
  if [ "$(cat "$1/.stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$1/.stamp"
    if [ -d "$1" ]; then
      for p in wruster wruster_handlers repobins mirun; do
        cargo $3 clean --offline --manifest-path "$2" --target-dir "$1" -p $p >/dev/null 2>&1
      done
    fi
  fi
  STAMP=$now
}
stamp() { echo "$STAMP" > "$1/.stamp"; }
build_main() {
  fresh "$VERIF_DIR/target/main" harness/Cargo.toml ""
  local log="$VERIF_DIR/target/main.log"; mkdir -p "$VERIF_DIR/target"
  cargo build --offline --manifest-path harness/Cargo.toml --target-dir "$VERIF_DIR/target/main" >"$log" 2>&1 || { tail -40 "$log"; echo "ERROR: build failed"; return 1; }
  stamp "$VERIF_DIR/target/main"
}
# The same harness with the private types of the repository exposed (cfg wruster_verif).
build_hook() {
  export RUSTFLAGS='--cfg wruster_verif'
  fresh "$VERIF_DIR/target/hook" harness/Cargo.toml ""
  local log="$VERIF_DIR/target/hook.log"; mkdir -p "$VERIF_DIR/target"
  cargo build --offline --manifest-path harness/Cargo.toml --target-dir "$VERIF_DIR/target/hook" >"$log" 2>&1 || { unset RUSTFLAGS; tail -40 "$log"; echo "NOTE: build with the private types failed"; return 1; }
  stamp "$VERIF_DIR/target/hook"
  unset RUSTFLAGS
}
# The programs of the repository.
build_bins() {
  fresh "$VERIF_DIR/target/bins" bins/Cargo.toml ""
  local log="$VERIF_DIR/target/bins.log"; mkdir -p "$VERIF_DIR/target"
  cargo build --offline --manifest-path bins/Cargo.toml --target-dir "$VERIF_DIR/target/bins" >"$log" 2>&1 || { tail -40 "$log"; echo "ERROR: build failed"; return 1; }
  stamp "$VERIF_DIR/target/bins"
}
# The harness with a sanitizer, the standard library included: build_san tsan|asan
build_san() { build_san_with $1 "--cfg wruster_verif" || build_san_with $1 ""; }
build_san_with() {
  local t=$1 san; case $t in tsan) san=thread;; asan) san=address;; esac
  export RUSTFLAGS="$2 -Zsanitizer=$san"
  fresh "$VERIF_DIR/target/$t" harness/Cargo.toml "+nightly"
  local log="$VERIF_DIR/target/$t.log"; mkdir -p "$VERIF_DIR/target"
  cargo +nightly build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml --target-dir "$VERIF_DIR/target/$t" >"$log" 2>&1 || { unset RUSTFLAGS; tail -40 "$log"; echo "NOTE: build with $t failed"; return 1; }
  stamp "$VERIF_DIR/target/$t"
  unset RUSTFLAGS
}
# Miri: its own standard library and the workloads.
build_miri() {
  export MIRI_SYSROOT="$VERIF_DIR/target/miri-sysroot"
  mkdir -p "$VERIF_DIR/target"
  local log="$VERIF_DIR/target/miri.log"
  if [ ! -e "$MIRI_SYSROOT/.done" ]; then
    (unset MIRI_SYSROOT; export XDG_CACHE_HOME="$VERIF_DIR/target/miri-cache"; cargo +nightly miri setup >"$log" 2>&1 && cp -a "$(cargo +nightly miri setup --print-sysroot 2>/dev/null)" "$VERIF_DIR/target/miri-sysroot") && touch "$MIRI_SYSROOT/.done" || { tail -20 "$log"; echo "ERROR: no Miri"; return 1; }
  fi
  export RUSTFLAGS='--cfg wruster_verif'
  fresh "$VERIF_DIR/target/miri" miri/Cargo.toml "+nightly"
  MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run -q --offline --manifest-path miri/Cargo.toml --target-dir "$VERIF_DIR/target/miri" -- none 0 >"$log" 2>&1
  grep -q "^DONE" "$log" || { unset RUSTFLAGS; tail -40 "$log"; echo "NOTE: build for Miri failed"; return 1; }
  stamp "$VERIF_DIR/target/miri"
  unset RUSTFLAGS
}
