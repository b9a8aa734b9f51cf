set -e
rm -rf /tmp/ftarget/debug/build/scale-decode /tmp/ftarget/debug/build/corpus /tmp/ftarget/debug/.fingerprint /tmp/ftarget/debug/incremental
cd /verif/corpus
export VP_OUT=/tmp/facts VP_CRATES=scale_decode,corpus VP_DESCEND=/verif/driver/descend.txt RUSTC_WRAPPER=/tmp/vpdriver CARGO_TARGET_DIR=/tmp/ftarget RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow"
cargo +nightly check --offline "$@"
