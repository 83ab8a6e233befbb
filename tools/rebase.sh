#!/bin/bash
# regenerate properties, manifest and baseline hashes
cd /verif && python3 mkprops.py && python3 mkmanifest.py && python3 -c "import sys; sys.path.insert(0,'/verif'); import check,json; json.dump(check.tree_hashes(), open('/verif/baseline.json','w'), indent=1)"
