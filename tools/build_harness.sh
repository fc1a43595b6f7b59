#!/bin/bash
# Compiles the harness (with the current tree of /repo inside) natively and to LLVM bitcode.
# A part of the harness that no longer compiles against the tree (it names private
# items) is left out, and listed in build/left_out.
set -e
cd "$(dirname "$0")/.."
V=$PWD
tools/prepare.sh
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PLUSENDI_VERIF_HARNESS=$V/build/hx PLUSENDI_VERIF_GEN=$V/build/gen CARGO_TARGET_DIR=$V/build/target
mkdir -p build/hx
left=" "
for try in 1 2 3 4 5 6 7 8; do
  scaled=$(python3 tools/gen_scaled.py $left)
  for f in harness/in_crate/*.rs; do
    n=$(basename $f)
    case "$left" in *" $n "*) f=/dev/null;; esac
    cmp -s $f build/hx/$n || cp $f build/hx/$n
  done
  tools/gen_entries.sh $scaled
  export RUSTFLAGS="-A warnings --cfg plusendi_verif --check-cfg cfg(plusendi_verif) $scaled -C save-temps -C no-vectorize-loops -C no-vectorize-slp -C force-unwind-tables=no"
  if (cd harness && cargo build --offline --release --message-format=json-render-diagnostics "$@") > build/harness.json 2> build/harness.log; then
    tail -1 build/harness.log
    break
  fi
  # once more for the messages in full: which parts does the compiler object to?
  (cd harness && cargo build --offline --release --message-format=json "$@") > build/harness.json 2>> build/harness.log || true
  bad=$(python3 tools/blame.py build/harness.json 2>/dev/null)
  # a part within one left out goes too
  for b in $bad; do
    bad="$bad $(grep -oE '"/[a-z0-9_]+\.rs"' harness/in_crate/$b 2>/dev/null | tr -d '"/' | tr '\n' ' ')"
  done
  new=
  for b in $bad; do
    case "$left" in *" $b "*) ;; *) new=1; left="$left$b ";; esac
  done
  if [ -z "$new" ] || [ "$try" = 8 ]; then
    cat build/harness.log
    exit 1
  fi
  echo "left out: $bad"
done
echo $left > build/left_out
d=$CARGO_TARGET_DIR/release
# the harness's own final module, newest first
bc=$(ls -t $d/deps/sxh-*.sxh.*-cgu.0.rcgu.bc | head -1)
ln -sfn "$bc" $V/build/sxh.bc
ln -sfn $d/sxh $V/build/sxh
