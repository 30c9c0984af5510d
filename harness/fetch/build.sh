# sourced by run.sh
maps=("@ctfetch=cmd/ct-fetch" "@commit=cmd/commit")
for f in "$HERE"/harness/fetch/*.go; do maps+=("$VERIF_REPO/go/verif_fetch/$(basename "$f")=$f"); done
go_build ./verif_fetch "${maps[@]}"
