#!/usr/bin/env python3
"""One-off: wrote spec/StdTemplate.tla from the template in the code; the result was compared by
hand with the card layout printed in the SEG-Y rev 1 standard and is from then on the reference."""
import sys
sys.path.insert(0, '/repo')
from segpy import textual_reel_header as t
import re
out = []
bg = t.TEMPLATE
slots = []
for m in re.finditer(r'\{[^}]*\}', t.TEMPLATE):
    slots.append((t.TEMPLATE_FIELD_NAMES[m.group(0)[1:-1].strip()], m.start() // 80 + 1, m.start() % 80 + 1, m.end() - m.start()))
    bg = bg[:m.start()] + ' ' * (m.end() - m.start()) + bg[m.end():]
lines = [bg[k:k + 80] for k in range(0, 3200, 80)]
def codes(s):
    return '<<' + ','.join(str(ord(c)) for c in s) + '>>'
print('---------------------------- MODULE StdTemplate -----------------------------')
print('(* The standard textual header: forty cards, and the slots in them.\n   TS(name, card, first column, width); cards without trailing blanks. *)')
print('EXTENDS Integers, Sequences, TLC')
print('TS(n, card, col, w) == [name |-> n, card |-> card, col |-> col, w |-> w]')
print('StdSlots == <<\n' + ',\n'.join('  TS("%s", %d, %d, %d)' % s for s in slots) + ' >>')
print('\\* ' + '\n\\* '.join(l.rstrip() for l in lines))
print('StdCards == <<\n' + ',\n'.join('  ' + codes(l.rstrip()) for l in lines) + ' >>')
print('EndMarker == [rev0 |-> %s, rev1 |-> %s]' % (codes('END EBCDIC'), codes('END TEXTUAL HEADER')))
print('=============================================================================')
