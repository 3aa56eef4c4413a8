#!/bin/bash
. "$(dirname "$0")/build.sh"
