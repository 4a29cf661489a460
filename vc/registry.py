import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    'C01': dict(modules=['c01_runlength']),
    'C02': dict(modules=['c02_ascii85']),
    'C03': dict(modules=['c03_asciihex']),
    'C04': dict(modules=['c04_lzw']),
    'C05': dict(modules=['c05_png']),
    'C06': dict(modules=['c06_ccitt']),
    'C07': dict(modules=['c07_filters']),
    'C08': dict(modules=['c08_lexer']),
    'C09': dict(modules=['c09_objects']),
    'C10': dict(modules=['c10_xref']),
    'C11': dict(modules=['c11_lookup']),
    'C12': dict(modules=['c12_pages']),
    'C13': dict(modules=['c13_crypt']),
    'C14': dict(modules=['c14_gstate']),
    'C15': dict(modules=['c15_paths']),
    'C16': dict(modules=['c16_text']),
    'C17': dict(modules=['c17_output']),
    'C18': dict(modules=['c18_fonts']),
    'C19': dict(modules=['c19_place']),
    'C20': dict(modules=['c20_html']),
    'C21': dict(modules=['c21_images']),
}
_p = os.path.join(HERE, 'known_findings.json')
KNOWN = json.load(open(_p)) if os.path.exists(_p) else {}
