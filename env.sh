export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export Z3_SYS_Z3_HEADER=/usr/include/z3.h
export VERIF_DIR=$PWD REPO_DIR=${REPO_DIR:-/repo}
export CARGO_TARGET_DIR=$PWD/target
mkdir -p "$CARGO_TARGET_DIR" evidence
