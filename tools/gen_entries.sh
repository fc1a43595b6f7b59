#!/bin/bash
# Lists every harness entry point (fn h_*) for the native dispatcher.
cd "$(dirname "$0")/../harness"
flags=" $* "
names=$(grep -ohE 'extern "C" fn h_[a-z0-9_]+' ../build/hx/*.rs | awk '{print $4}' | sort -u)
for v in tree3 tree4 tree5 win; do
  case "$flags" in *" vscaled_$v "*) ;; *) names=$(echo "$names" | grep -v "^h_${v}_");; esac
done
{ echo "// generated by tools/gen_entries.sh"; echo "type F = unsafe extern \"C\" fn();"
echo 'extern "C" {'; for n in $names; do echo "    fn $n();"; done; echo '}'
echo "pub static ENTRIES: &[(&str, F)] = &["; for n in $names; do echo "    (\"$n\", $n as F),"; done; echo '];'; } > src/entries.rs.new
cmp -s src/entries.rs.new src/entries.rs && rm src/entries.rs.new || mv src/entries.rs.new src/entries.rs
