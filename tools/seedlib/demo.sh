#!/bin/bash
exec timeout 120 /opt/node/node_modules/.bin/node --no-warnings --expose-gc "$(cd "$(dirname "$0")" && pwd)/demo.mjs"
