# Compiles the dependencies of the harness and replay crates once, offline.
cd "$(dirname "$0")/.." || exit 1
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.cache/target"
mkdir -p .cache
cargo rustc --release --offline --manifest-path harness/Cargo.toml -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C linker=/bin/true &&
cargo build --release --offline --manifest-path replay/Cargo.toml
