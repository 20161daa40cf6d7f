cd /verif/extract && CARGO_TARGET_DIR=/verif/target/vpx cargo build --offline --release 2>&1 | grep -E "^error" -A8 | head -60
