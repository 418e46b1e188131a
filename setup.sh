#!/bin/bash
# Nothing to install: the checks use the interpreter and the libraries of the
# project's own environment.  Build once so that each check's rebuild is short.
exec bash /opt/vp/build.sh ext >/dev/null 2>&1
