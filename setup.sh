#!/bin/bash
# Build the extension modules from /repo's working tree (the checks do the same again, incrementally).
exec bash /opt/vp/build.sh ext > /dev/null
