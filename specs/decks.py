"""Contracts of card decks: the cards of a list of lines, or of a source file with its
included files."""
from specs.cards import PunchCard, Card, COLUMNS, WIDTH
from pyvc.contract import AnyReject


def cards_of(cls, lines, filename, width, fields):
    """One card per line that is not a meta-comment."""
    return [cls(lines[i], width=width, fields=fields, filename=filename, linenum=i + 1)
            for i in range(len(lines)) if not lines[i].startswith('#')]


def read(fs, cls, name, width, fields):
    """The cards of a file; a '$ name' line stands for the cards of that file."""
    if name not in fs:
        raise SystemExit(1)
    lines = fs[name]
    out = []
    for i in range(len(lines)):
        line = lines[i]
        if line.startswith('#'):
            continue
        if line.startswith('$'):
            words = line[1:].split()
            if not words:
                raise AnyReject()
            out.extend(read(fs, cls, words[0], width, fields))
        else:
            out.append(cls(line, width=width, fields=fields, filename=name, linenum=i + 1))
    return out


class Deck:
    CARD = PunchCard

    def __init__(self, lines=None, file=None, width=WIDTH, fields=COLUMNS, fs=None):
        if lines is None and file is None:
            raise SystemExit(1)
        if file:
            self.cards = read(fs, self.CARD, file, width, fields)
            self.lines = [c.line for c in self.cards]
        else:
            self.cards = cards_of(self.CARD, lines, None, width, fields)
            self.lines = lines
        self.fields = [c.fields for c in self.cards]
        self.strippedFields = [c.strippedFields for c in self.cards]
        self.records = [c.record for c in self.cards]

    def __str__(self):
        return '\n'.join([c.line for c in self.cards])


class ArgusDeck(Deck):
    CARD = Card

    def __init__(self, lines=None, file=None, width=WIDTH, fields=COLUMNS, fs=None):
        super().__init__(lines, file, width, fields, fs)
        self.log_section = None
        self.log_section_col8 = None
        for c in self.cards:
            if c.column1 == 'L':
                self.log_section = c.line[8:81].strip()
                self.log_section_col8 = c.column8
                break
