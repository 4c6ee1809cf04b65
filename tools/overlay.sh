#!/bin/bash
# overlay.sh OUTDIR: writes block-counting copies of /repo's packages to OUTDIR
# and OUTDIR/overlay.json, the build overlay that puts them in place.
set -e
out=$1
cd /repo
k=0
{
  echo '{"Replace": {'
  sep=''
  while read -r dir pkg files; do
    names=''; counts=''
    for f in $files; do
      k=$((k+1))
      go tool cover -mode=count -var="GoCov_$k" -o "$out/c$k.go" "$dir/$f" >&2
      # A file without statements gets no counters that can be indexed.
      if grep -q "^	Count  *\[0\]" "$out/c$k.go" || ! grep -q "GoCov_$k.Count\[" "$out/c$k.go"; then continue; fi
      printf '%s\n"%s": "%s"' "$sep" "$dir/$f" "$out/c$k.go"; sep=','
      rel=${dir#/repo}; names="$names\"${rel#/}/$f\","; counts="${counts}GoCov_$k.Count[:],"
    done
    printf 'package %s\n\nfunc VerifCov() ([]string, [][]uint32) { return []string{%s}, [][]uint32{%s} }\n' "$pkg" "$names" "$counts" > "$out/x$k$pkg.go"
    printf '%s\n"%s": "%s"' "$sep" "$dir/zz_verif_cov.go" "$out/x$k$pkg.go"; sep=','
  done
  echo '}}'
} > "$out/overlay.json" < <(go list -f '{{.Dir}} {{.Name}} {{range .GoFiles}}{{.}} {{end}}' ./...)
