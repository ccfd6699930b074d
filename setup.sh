#!/bin/bash
# Builds the simulator once, to prove that it can be built offline.
cd "$(dirname "$0")/sim" && CARGO_NET_OFFLINE=true cargo build --offline --locked
