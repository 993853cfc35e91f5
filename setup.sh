#!/bin/bash
# builds the extractor and the Boost.Beast overlay header
set -e
cd "$(dirname "$0")"
mkdir -p build/ov/boost/beast/http evidence replay_out
bash tools/build.sh build/extract
# Boost 1.83 lacks two status codes that the library names; the overlay adds the enumerators only
sed 's/processing *= 102,/processing = 102, early_hints = 103,/; s/failed_dependency *= 424,/failed_dependency = 424, too_early = 425,/' \
  /usr/include/boost/beast/http/status.hpp > build/ov/boost/beast/http/status.hpp
