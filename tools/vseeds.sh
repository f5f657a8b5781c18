#!/bin/bash
# vseeds.sh ID...: verify planted bugs (scratch.sh with patch+demo, 2 at a time) -> /tmp/sv.<ID>
for id in "$@"; do echo $id; done | xargs -P 3 -I{} bash -c 'bash /verif/tools/scratch.sh /tmp/sv.{} /verif/seeded/{}/patch.diff /verif/seeded/{}/demo.sh; echo "{}: $(tr "\n" "|" </tmp/sv.{} | cut -c1-400)"'
