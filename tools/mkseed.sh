#!/bin/bash
# mkseed.sh ID [features]: save /tmp/plant/repo's working-tree diff as seeded/ID/patch.diff and lay out its demonstration crate.
id=$1; feats=${2:-sqlite}; d=/verif/seeded/$id; mkdir -p $d/crate/src
git -C /tmp/plant/repo diff > $d/patch.diff
cat > $d/crate/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
butane = { path = "@REPO@/butane", features = [$(echo $feats | sed 's/\([^ ,]*\)/"\1"/g; s/ /, /g')] }
butane_core = { path = "@REPO@/butane_core", features = [$(echo $feats | sed 's/\([^ ,]*\)/"\1"/g; s/ /, /g')] }
serde_json = "1"
tokio = { version = "1", features = ["full"] }
nonempty = "*"
chrono = "*"

[profile.dev]
debug = 0

[workspace]
T
cat > $d/demo.sh <<'T'
#!/bin/bash
# Builds the demonstration program beside this script against the repository in the working directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -r "$here/crate" "$work/crate"
sed -i "s#@REPO@#$repo#g" "$work/crate/Cargo.toml"
cp "$repo/Cargo.lock" "$work/crate/Cargo.lock"
cd "$work/crate" || exit 2
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
mkdir "$work/scratch"
export DEMO_SCRATCH="$work/scratch"
cargo build --offline -q || exit 2
timeout 120 "$work/target/debug/demo"
T
cp /verif/tools/demo_help.rs $d/crate/src/help.rs; chmod +x $d/demo.sh
