#!/bin/bash
# builds every checker once
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/target"
bash "$here/build.sh" mc mcpool mccrank
