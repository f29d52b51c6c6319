# toolchain the repository's own tests are built with
T=/root/.rustup/toolchains
export RUSTUP_TOOLCHAIN=1.70.0 HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO=$T/1.70.0-x86_64-unknown-linux-gnu/bin/cargo RUSTC=$T/1.69.0-x86_64-unknown-linux-gnu/bin/rustc
