# sourced by run.sh
maps=()
for f in "$HERE"/harness/store/*.go; do maps+=("$VERIF_REPO/go/verif_store/$(basename "$f")=$f"); done
go_build ./verif_store "${maps[@]}"
