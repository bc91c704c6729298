import importlib

MAP = {}
for mod, ids in (('scen_stream', 'C01 C02 C03'), ('scen_aead', 'C04 C05 C22'), ('scen_siv', 'C06 C07 C08'),
                 ('scen_ecc', 'C09 C10 C11 C12 C13'), ('scen_tkip', 'C14 C15'),
                 ('scen_hash', 'C16 C17'), ('scen_math', 'C18 C19'), ('scen_text', 'C20'), ('scen_data', 'C21 C23 C24')):
    for i in ids.split():
        MAP[i] = mod


def get(prop):
    return getattr(importlib.import_module(MAP[prop]), prop)()
