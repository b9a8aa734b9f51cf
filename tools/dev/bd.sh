set -e
cd /verif/driver; rustc +nightly -O driver.rs -o /tmp/vpdriver -C link-arg=-Wl,-rpath,$(rustc +nightly --print sysroot)/lib --cap-lints allow
