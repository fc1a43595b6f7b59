#!/bin/bash
# Copies the real tokio 1.14.0 out of cargo's offline registry under another
# name, with one change: the branch `select!` polls first is chosen by the harness.
set -e
cd "$(dirname "$0")/.."
[ -f build/tokio-real/.ready ] && exit 0
src=$(ls -d ${CARGO_HOME:-$HOME/.cargo}/registry/src/*/tokio-1.14.0 | head -1)
rm -rf build/tokio-real
mkdir -p build/tokio-real
cp -r "$src/src" "$src/build.rs" build/tokio-real/
chmod -R u+w build/tokio-real
python3 - <<'P'
open('build/tokio-real/Cargo.toml','w').write("""[package]
name = "tokio-real"
version = "1.14.0"
edition = "2018"
build = "build.rs"

[dependencies]
bytes = { version = "1.0.0", optional = true }
memchr = { version = "2.2", optional = true }
pin-project-lite = "0.2.0"
tokio-macros = { version = "1.6.0", optional = true }

[build-dependencies]
autocfg = "1"

[features]
default = []
io-util = ["memchr", "bytes"]
macros = ["tokio-macros"]
sync = []
""")
p='build/tokio-real/src/macros/support.rs'
s=open(p).read()
s=s.replace('pub use crate::util::thread_rng_n;','''/// Which branch is polled first is the harness's choice.
    pub fn thread_rng_n(n: u32) -> u32 {
        extern "C" { fn sx_sched(n: u32) -> u32; }
        unsafe {
            match SX_FREE_SELECTS {
                0 => return 0,
                u32::MAX => {}
                _ => SX_FREE_SELECTS -= 1,
            }
            sx_sched(n)
        }
    }
    /// How many of these choices are left open; the first branch goes first after that.
    #[no_mangle]
    pub static mut SX_FREE_SELECTS: u32 = u32::MAX;''')
open(p,'w').write(s)
P
touch build/tokio-real/.ready
