#!/bin/bash
# formats the harnesses; gofmt moves the directives, so put them back
cd "$(dirname "$0")/.." || exit 1
gofmt -w harness gosym
sed -i 's#^// vsym C#//vsym C#' harness/*/*.go
