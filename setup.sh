#!/bin/bash
# Builds the preload shim; checks build it themselves too when it is missing.
set -e
cd "$(dirname "$0")"
bash dst/build.sh
