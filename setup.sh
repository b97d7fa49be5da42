#!/bin/bash
# Builds the simulator, the instrumented runtime, the compiler and every workload once; checks rebuild what changed.
cd "$(dirname "$0")" && exec ./check --build
