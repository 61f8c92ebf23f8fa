#!/bin/bash
# builds the fact extractor and the dependencies of the analysed crate (as metadata)
cd "$(dirname "$0")"
./extract.sh "${VERIF_REPO:-/repo}" bromine --all-features "${VERIF_WORK:-$PWD/.work}/facts/all.json"
