#!/bin/bash
# warms the build cache; checks build the checker themselves
. /opt/vp/env.sh
cd "$(dirname "$0")/checker" && go build -o /dev/null .
