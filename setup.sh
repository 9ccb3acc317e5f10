#!/bin/bash
# Builds the harness against /repo, without and with the oniguruma feature.
. "$(dirname "$0")/env.sh"
build && build oniguruma
