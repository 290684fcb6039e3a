"""Writes the table of planted bugs into DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    's05-own-per-call': 'an unknown form of sort key was undecided; '
                        'witness numbers added',
    's07-noticed-twice': 'an earlier variant (EAGAIN ends the broadcast) was '
                         'missed; failures of seven kinds added',
    's14-base-code-kept': 'no case had the base among the ignored',
    's17-itimer-zero': 'values made of the previous one were taken for it',
    's19-short-size': 'the masked length was undecided; witness numbers',
    's31-process-clock': 'max() of two clocks was undecided; witness moments '
                         'for any form, other clocks bounded',
    's32-esc-in-flat': 'keys were pressed in the nested layout only',
    's37-sample-top-only': 'no sample hit the base frame itself',
}
NOTES = os.path.join(HERE, 'tools', 'missed.json')


def main():
    missed = dict(MISSED)
    if os.path.exists(NOTES):
        missed.update(json.load(open(NOTES)))
    out = ['| planted bug | needs | caught by | at first |', '|-|-|-|-|']
    d = os.path.join(HERE, 'seeded')
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        late = missed.get(n)
        caught = m['property']
        if late and late.startswith('not caught'):
            caught = '-'
        out.append('| %s | %s | %s | %s |' % (
            n, m['needs'], caught, 'missed: ' + late if late else 'caught'))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
    i, j = s.index(a) + len(a), s.index(b)
    open(p, 'w').write(s[:i] + '\n'.join(out) + '\n' + s[j:])


main()
