#!/bin/bash
# Replays a recorded failing input against /repo's current sources.
cd "$(dirname "$0")" && exec python3-vt -m dv.refute "$@"
