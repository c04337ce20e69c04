# notes of single properties, added to the level notes of MANIFEST.json
