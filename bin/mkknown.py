"""Writes bin/known.json: the functions and constants each source file declares, as the contracts know them.
Run when contracts are written for new ones; vx.py inlines functions that are not in it."""
import json, os
import vx
out = {f: vx.declared(vx.Source(f).m) for f in vx.source_files()}
json.dump(out, open(os.path.join(vx.HERE, 'known.json'), 'w'), indent=0, sort_keys=True)
