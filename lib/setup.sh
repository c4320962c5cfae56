# warms the caches the checks use: python byte code and the dependencies of the replay crates
set -e
cd "$(dirname "$0")/.."
python3 -m py_compile lib/*.py
mkdir -p evidence target
for c in replay/*/; do
  n=$(basename "$c"); t=$(mktemp -d)
  mkdir "$t/src"; echo 'fn main(){}' > "$t/src/main.rs"; cp "$c/Cargo.toml" "$c/Cargo.lock" "$t/"
  (cd "$t" && CARGO_TARGET_DIR="/verif/target/$n" RUSTFLAGS='-A warnings ' cargo +1.82 build --offline --release --quiet)
  rm -rf "$t"
done
echo setup done
