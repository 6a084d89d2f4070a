#!/bin/bash
exec bash "$(dirname "$0")/mk.sh"
