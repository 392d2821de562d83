#!/bin/bash
# withrepo.sh DIR CMD... : run CMD with DIR bound over /repo in a private mount namespace.
D=$(realpath "$1"); shift
export D; exec unshare -Urm bash -c 'mount --bind "$D" /repo && exec "$@"' _ "$@"
