#!/bin/sh
# The crates under test combine forbid(unsafe_code) with a later warn(): newer
# compilers reject that unless lints are capped (host crates get no RUSTFLAGS).
exec "$@" --cap-lints allow
