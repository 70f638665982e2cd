#!/bin/sh
# RUSTC_WORKSPACE_WRAPPER: compile cdx itself with the simulation hooks on
exec "$@" --cfg cdx_sim
