#!/bin/bash
# Conformance test of the executor itself: ~135 snippets of library and language
# use run symbolically and natively; the observations have to agree. Known
# differences: texts of run-time panics, %v of maps and floats.
cd "$(dirname "$0")/.." && . ./env.sh
d=$(mktemp -d /tmp/gosym-self.XXXXXX)
mkdir -p $d/harness/pkg__encoding && cp selftest/std.go.txt $d/harness/pkg__encoding/std.go && cp -r harness/vsym $d/harness/vsym
(cd gosym && GOFLAGS=-mod=readonly go build -o $d/gosym .) && GOSYM_SAMPLES=5000 $d/gosym check -prop C99 -verif $d -v 2>&1 | grep -v '^init\|^load' | cut -c1-1500
rm -rf "$d"
