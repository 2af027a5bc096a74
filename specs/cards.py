"""Contracts of punch cards: column-delimited lines of text."""

COLUMNS = [1, 2, 8, 9, 20, 33, 47, 61, 76, 81]
WIDTH = 120
NAMES = ["column1", "lognum", "column8", "label", "operation", "operand1", "operand2",
         "operand3", "misc", "remarks"]


class PunchCard:
    def __init__(self, line, width=WIDTH, fields=COLUMNS, fieldnames=NAMES, filename=None,
                 linenum=0, verbose=False):
        self.line = line.replace('\n', '')
        self.filename = filename
        self.linenum = linenum
        self.isComment = line.startswith('#')
        self.comment = self.line if self.isComment else None
        self.layout = []
        if self.isComment:
            return
        # each field extends to the column before the next one, the last to the card's width
        ends = [c - 1 for c in fields[1:]] + [width]
        self.layout = [(fields[i], ends[i] - fields[i] + 1) for i in range(len(fields))]
        self.fields = [self.line[fields[i] - 1:ends[i]] for i in range(len(fields))]
        self.strippedFields = [None if f.strip() == "" else f.strip() for f in self.fields]
        self.record = {}
        if linenum != 0:
            self.record["linenum"] = linenum
        for i in range(len(fields)):
            self.record[fieldnames[i]] = self.strippedFields[i]

    def __str__(self):
        return self.line


class Card(PunchCard):
    """An ARGUS card: P, R and L cards carry only remarks, from column 9 on."""

    def __init__(self, line, width=WIDTH, fields=COLUMNS, fieldnames=NAMES, filename=None,
                 linenum=0, verbose=False):
        super().__init__(line, width, fields, fieldnames, filename, linenum, verbose)
        r = self.record
        if r["column1"] in ('P', 'R', 'L'):
            for n in NAMES[3:9]:
                r[n] = None
            r["remarks"] = self.line[8:].strip()
        op = r["operation"]
        r["instruction"] = op
        if op and ',' in op:
            r["instruction"] = op.split(',')[0].strip()
        self.column1 = r["column1"]
        self.lognum = r["lognum"]
        self.column8 = r["column8"]
        self.label = self.location = r["label"]
        self.operation = op
        self.instruction = r["instruction"]
        self.operand1 = self.addressa = r["operand1"]
        self.operand2 = self.addressb = r["operand2"]
        self.operand3 = self.addressc = r["operand3"]
        self.sequence = r["misc"]
        self.remarks = r["remarks"]
