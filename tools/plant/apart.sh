#!/bin/bash
# usage: apart.sh N ID... -- catch.sh by N workers at once, each with copies of /repo and /verif that stand in
# for them in a mount namespace of its own; collects caught.tsv
set -u
n=$1; shift
base=$(mktemp -d /tmp/apart.XXXXXX) || exit 2
for w in $(seq 0 $((n - 1))); do
  ids=""; i=0
  for id in "$@"; do [ $((i % n)) = "$w" ] && ids="$ids $id"; i=$((i + 1)); done
  r=$base/$w; mkdir "$r"
  cp -a /repo "$r/repo"; cp -a /verif "$r/verif"
  : > "$r/verif/tools/plant/caught.tsv"
  unshare -m bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && mkdir -p "$0/tmp" && mount --bind "$0/tmp" /tmp && cd /verif && exec bash /verif/tools/plant/catch.sh "$@"' "$r" $ids &
done
wait
cat "$base"/*/verif/tools/plant/caught.tsv > "$base/new"
awk -F'\t' 'NR==FNR{n[$1]=1; print; next} !($1 in n)' "$base/new" /verif/tools/plant/caught.tsv | sort > "$base/all"
cp "$base/all" /verif/tools/plant/caught.tsv
rm -rf "$base"
