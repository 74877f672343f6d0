#!/bin/bash
# setup.sh: warms the build cache by building the monitors once.
cd "$(dirname "$0")/.."
mkdir -p /tmp/mwmon-build evidence
tools/build.sh /tmp/mwmon-build/mwmon
