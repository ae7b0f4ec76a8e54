#!/bin/bash
# confirm.sh ID : checks a planted change in a scratch copy of /repo (applies, builds, demo passes before / fails after).
# confirm.sh ID tests : also runs the repository's tests.
id=$1; d=${VERIF_DIR:-/verif}/seeded/$id
w=$(mktemp -d /tmp/seed_XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a ${VERIF_REPO:-/repo} "$w/repo"; cp -r "$d" "$w/seed"; rm -f "$w"/seed/*.diff "$w"/seed/meta.json
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
cd "$w/repo"
bash "$w/seed/demo.sh" > "$w/o1" 2>&1; a=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash "$w/seed/demo.sh" > "$w/o2" 2>&1; b=$?
echo "$id: demo clean=$a patched=$b"; [ $a = 0 ] || tail -5 "$w/o1"; [ $b != 0 ] || tail -5 "$w/o2"
