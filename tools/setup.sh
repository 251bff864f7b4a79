#!/bin/bash
# builds the verifier from the committed files
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh
mkdir -p bin evidence
cd govc && go build -o ../bin/govc .
