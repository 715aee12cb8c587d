#!/bin/bash
# Builds the harness offline (called once before any check).
set -e
cd "$(dirname "$0")"
. ./env.sh
if [ ! -d "$CCACHE_DIR" ]; then
  if [ -d /opt/vp/ccache ]; then cp -a /opt/vp/ccache "$CCACHE_DIR"; else mkdir -p "$CCACHE_DIR"; fi
fi
cd harness && cargo build --offline 2>&1 | tail -3
