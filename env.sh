# Common environment: the pinned toolchain, offline.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset CARGO_TARGET_DIR RUSTFLAGS
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=/repo
BUILD=$VERIF/.build
