#!/bin/bash
# Builds the framework once from the committed files (each check rebuilds what it needs anyway).
exec bash "$(cd "$(dirname "$0")" && pwd)/run.sh" build C17
