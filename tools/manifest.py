"""Writes MANIFEST.json from notes.json: every property with a note is claimed."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{root}/properties.jsonl')]
notes = json.load(open(f'{root}/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes:
        t, n = notes[i]
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i}', thorough_cmd=f'VERIF_TIER=thorough bash check.sh {i}', technique=t, level='exploration', level_note=n))
    else:
        na.append(dict(property=i, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(f'{root}/MANIFEST.json', 'w'), indent=1)
