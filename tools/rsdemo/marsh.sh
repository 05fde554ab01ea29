# builds the marshalling library as it is and runs main.rs against it; $here: folder of this file, $d: scratch
V=$(dirname "$(readlink -f "$(command -v verus)")")
[ -f "$V/libverus_builtin.rlib" ] || V=/opt/veriftools/verus
mkdir "$d/src"
for m in marshalling marshalling.rs spec betree; do cp -r "Splinter/src/$m" "$d/src/"; done
cp "$here/main.rs" "$d/src/main.rs"
find "$d/src" -name "*.rs" -type f -print0 | xargs -0 sed -i -E "s/\\blet _ = [0-9]+;//"
cd "$d/src" || exit 2
timeout 200 verus --extern builtin=$V/libverus_builtin.rlib --extern builtin_macros=$V/libverus_builtin_macros.so --extern state_machines_macros=$V/libverus_state_machines_macros.so --no-verify --compile main.rs -o "$d/run" > "$d/log" 2>&1 || { grep -A9 '^error' "$d/log"; exit 1; }
timeout 20 "$d/run"
