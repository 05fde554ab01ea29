# builds and runs the store with a scripted client and an in-memory disk; $here: folder of this file, $d: scratch
# The sources are copied and renamed to the installed vstd's names of the infinite collections; ghost code is not verified.
V=$(dirname "$(readlink -f "$(command -v verus)")")
[ -f "$V/libverus_builtin.rlib" ] || V=/opt/veriftools/verus
mkdir "$d/src" && cp -r Splinter/src/. "$d/src" 2>/dev/null
find "$d/src" -name '*.rs' -type f -print0 | xargs -0 sed -i -E 's/\bMap\b/IMap/g; s/\bSet\b/ISet/g; s/\bmap!/imap!/g; s/\bset!/iset!/g; /^ *use vstd::.*\b(map|set)\b/ s/\b(map|set)\b/i\1/g; /^ *use vstd::.*\b(map_lib|set_lib)\b/ s/\b(map_lib|set_lib)\b/i\1/g; s/\bassert_(maps|sets)_equal/assert_i\1_equal/g; 0,/^use builtin_macros/ s/^use builtin_macros::\*;/use builtin_macros::*; use vstd::imap::*; use vstd::iset::*; use vstd::prelude::*;/'
# a statement without effect is not typable in ghost code
find "$d/src" -name '*.rs' -type f -print0 | xargs -0 sed -i -E 's/\blet _ = [0-9]+;//'
sed -i -E 's/self\.(sync_requests|requests|replies)\.dom\(\)/self.\1.dom().to_iset()/' "$d/src/implementation/ModelRefinement_v.rs"
perl -0pi -e 's/(broadcast proof fn (?:page|au)_count_equals\w+\(\)\s*ensures[^;]*);/$1 { admit(); }/g' "$d/src/spec/ImplDisk_t.rs"
perl -0pi -e 's/(pub fn marshall\((\w+): .*?)\{.*?\n\}/#[verifier::external_body]\n$1\{ crate::script::marshall($2) }/s; s/(pub fn unmarshall\((\w+): .*?)\{.*?\n\}/#[verifier::external_body]\n$1\{ crate::script::unmarshall() }/s' "$d/src/implementation/DiskLayout_v.rs"
cp "$here/client.rs" "$d/src/trusted/ClientAPI_t.rs"
cp "$here/script.rs" "$d/src/script.rs"
cp "$here/root.rs" "$d/src/root.rs"
cd "$d/src" || exit 2
timeout 200 verus --extern builtin=$V/libverus_builtin.rlib --extern builtin_macros=$V/libverus_builtin_macros.so --extern state_machines_macros=$V/libverus_state_machines_macros.so --no-verify --compile root.rs -o "$d/run" > "$d/log" 2>&1 || { grep -A5 '^error' "$d/log"; exit 1; }
timeout 20 "$d/run"
