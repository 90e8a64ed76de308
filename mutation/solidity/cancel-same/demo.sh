#!/bin/bash
exec node "$(dirname "$0")/demo.js"
