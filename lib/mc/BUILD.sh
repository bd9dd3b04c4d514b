# sourced by a check's BUILD: instrument the packages the harness needs, build it with the race detector
go build -o "$OUT/instrument" ./cmd/instrument || { echo "build failed" >&2; exit 2; }
mkdir -p "$OUT/i"
"$OUT/instrument" -out "$OUT/i" "./checks/$LOW" || { echo "instrumentation failed" >&2; exit 2; }
# (without specialised allocation functions, which would not tell the race detector about what mcrt allocates)
GOEXPERIMENT=nosizespecializedmalloc go build -race -tags mcrt -modfile "$OUT/i/go.mod" -overlay "$OUT/i/overlay.json" -gcflags='verif.local/mc/mcrt/...=-race=false -l' -o "$OUT/check" "./checks/$LOW" || { echo "build failed" >&2; exit 2; }
