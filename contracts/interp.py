"""Running operators of content streams on an interpreter state, symbolic or concrete."""
from vc.contract import *

C = 'pdfmajor.interpreter.commands'
K = C + '.commands'
ST = C + '.state'
LAY = ST + '.layout'
PARSER = 'pdfmajor.parser.PDFContentParser:PDFContentParser'
RES = dict(TReal=TReal)


def drive(self, state, ops, font_cache=None):
    """run the operators (name, operand...) with the operands as they come from the parser; items painted"""
    m = self.mod(C)
    KWD = self.mod('pdfmajor.parser.PSStackParser').PSKeyword
    objs = []
    for op in ops:
        objs += list(op[1:])
        objs.append(KWD(op[0].encode()))
    out = []

    def go():
        for x in m.process_command_stream(['stream'], font_cache if font_cache is not None else {}, state):
            out.append(x)
    hooks.overrides = {**hooks.overrides, PARSER: lambda streams: LST(*objs)}
    r = self.outcome(go)
    return (r[0], out if r[0] == 'ok' else r[1])


class Face:
    """a font: arbitrary functions"""
    def __init__(self, name='face'):
        self.fontname = name

    def is_multibyte(self):
        return False

    def is_vertical(self):
        return False


def new_state(self, ctm=(1, 0, 0, 1, 0, 0), resources=None, fonts=None, spaces=None, xobj=None, ignore=False):
    """a state as prepared for a page, with the given resources"""
    m = self.mod(C)
    st = hooks.call(m.prep_state, m.PDFStateStack(), ctm, resources if resources is not None else hooks.mkdict(), hooks.mkdict(), ignore) if symbolic() else m.prep_state(m.PDFStateStack(), ctm, resources or {}, {}, ignore)
    for where, what in ((st.fontmap, fonts), (st.colorspace_map, spaces), (st.xobjmap, xobj)):
        for k, v in (what or {}).items():
            where[k] = v
    return st
