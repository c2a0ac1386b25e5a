# sourced by check.sh: builds the harness into $bin ($2) for property $1
CGO_ENABLED=0 go build -o "$2/check" ./cmd/check || { echo "ERROR: harness does not build against /repo" >&2; return 2; }
if [ "$1" = C18 ]; then
  CGO_ENABLED=1 go build -race -o "$2/check-race" ./cmd/check || { echo "ERROR: race build failed" >&2; return 2; }
  # controlled-schedule build: optional, see DESIGN.md
  mkdir -p "$2/ov"
  if mode="$(go run ./cmd/schedgen /repo "$2/ov")" &&
     CGO_ENABLED=0 go build -overlay "$2/ov/overlay.json" -ldflags "-X verif/vsync.Mode=$mode" -o "$2/check-sched" ./cmd/check; then :
  else echo "note: no controlled-schedule build" >&2; /bin/rm -f "$2/check-sched"; fi
fi
if [ "$1" = C26 ]; then
  # counting build: optional, see DESIGN.md
  mkdir -p "$2/st"
  if go run ./cmd/stepgen /repo "$2/st" &&
     CGO_ENABLED=0 go build -overlay "$2/st/overlay.json" -ldflags "-X verif/vstep.Mode=step" -o "$2/check-step" ./cmd/check; then :
  else echo "note: no counting build" >&2; /bin/rm -f "$2/check-step"; fi
fi
return 0
