#!/bin/bash
exec timeout 100 node "$(dirname "$0")/demo.mjs"
