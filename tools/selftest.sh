#!/bin/bash
# Tests the harnesses, decides nothing: every harness natively, over the real containers,
# with pseudo-random inputs. Usage: tools/selftest.sh [NAME-PART [ROUNDS]]
cd "$(dirname "$0")/../replay" || exit 2
cargo build --offline -q --target-dir ../.build/selftest || exit 2
exec ../.build/selftest/debug/replay --self-test "${1:-}" "${2:-2000}"
