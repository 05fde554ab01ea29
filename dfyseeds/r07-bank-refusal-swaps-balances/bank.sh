# builds the example bank and runs main.rs against it; $here: folder of this file, $d: scratch
# ghost code is not verified and the tokenized state machine is replaced by stubs of its ghost operations (stubs.rs)
V=$(dirname "$(readlink -f "$(command -v verus)")")
[ -f "$V/libverus_builtin.rlib" ] || V=/opt/veriftools/verus
mkdir "$d/src"
sed -E '/@@|\)@\.value/ s/[^,&]*(@@|\)@\.value)[^,]*(,?)$/true\2/; s/^(.*)account_map\[j\]@\..*$/\&\&\& true/; s/^use vstd::\{map::\*, /use vstd::{/; s/account_map\.tracked_remove\(i as nat\)/Bank::some_token()/' Splinter/src/example/SimpleBank_v.rs > "$d/src/SimpleBank_v.rs"
perl -0pi -e 's/while accounts\.len\(\) < total_accounts\s+invariant.*?\n        \{\n/while accounts.len() < total_accounts\n        {\n/s; s/#\[verifier::external_body\]\s*fn unverified.*//s; s/unverified_concurrent_tests\(.*?\);//; s/assert\(account_map.*?\n/\n/' "$d/src/SimpleBank_v.rs"
cp "$here/bank_stubs.rs" "$d/src/stubs.rs" && cp "$here/main.rs" "$d/src/"
find "$d/src" -name "*.rs" -type f -print0 | xargs -0 sed -i -E "s/\\blet _ = [0-9]+;//"
cd "$d/src" || exit 2
timeout 200 verus --extern builtin=$V/libverus_builtin.rlib --extern builtin_macros=$V/libverus_builtin_macros.so --extern state_machines_macros=$V/libverus_state_machines_macros.so --no-verify --compile main.rs -o "$d/run" > "$d/log" 2>&1 || { grep -A9 '^error' "$d/log"; exit 1; }
timeout 20 "$d/run"
