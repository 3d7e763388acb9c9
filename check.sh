#!/bin/sh
# usage: check.sh PROPERTY  -- decides one property on /repo's working tree
set -e
cd "$(dirname "$0")"
. ./env.sh
[ -x bin/gov ] || ./setup.sh >&2
exec bin/gov check "$1"
