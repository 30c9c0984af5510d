# sourced by run.sh
maps=("@aggcrls=cmd/aggregate-crls" "@aggknown=cmd/aggregate-known")
for f in "$HERE"/harness/agg/*.go; do maps+=("$VERIF_REPO/go/verif_agg/$(basename "$f")=$f"); done
go_build ./verif_agg "${maps[@]}"
