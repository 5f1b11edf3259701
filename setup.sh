#!/bin/bash
# builds the simulator once, to fail early when something is missing; every check rebuilds what it needs
cd "$(dirname "$0")/sim" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true cargo build --offline
