#!/bin/bash
# tools/try.sh crate entry[,entry..] [seconds]: explore harness entries outside any property
cd "$(dirname "$0")/.."
SX_TRY="$1:$2" SX_VERBOSE=1 SX_KEEP=1 SX_STRICT=1 SX_LIMIT=${3:-120} timeout ${4:-900} bin/check TMP thorough
