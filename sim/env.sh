# Sourced by the check scripts: an offline, hermetic build of the simulator against /repo.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never DOCS_RS=1 RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR=/verif/sim/target
