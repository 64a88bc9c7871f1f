#!/bin/bash
# confirm planted bugs with the checks of a copy of /verif's working tree (development aid)
mkdir -p /tmp/vplant
rsync -a --delete --exclude target --exclude .pkg --exclude .git --exclude evidence --exclude out /verif/ /tmp/vplant/ 2>/dev/null || { cd /verif && tar cf - --exclude=./target --exclude=./.pkg --exclude=./.git --exclude=./evidence --exclude=./out . | tar xf - -C /tmp/vplant; }
PLANT_V=/tmp/vplant python3 /verif/tools/plant.py confirm "$@"
