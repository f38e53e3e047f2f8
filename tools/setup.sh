#!/bin/bash
# builds the harness in a scratch folder: shows that everything needed is there
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
bash "$V/tools/build.sh" plain race sched asan x86
