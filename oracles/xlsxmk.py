"""Write small xlsx files, and fill Sheet objects of xlrd directly."""
import io
import zipfile
from xml.sax.saxutils import escape
from channelpack import xlrd
from channelpack.xlrd import book as xbook, sheet as xsheet

ERR = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0F: '#VALUE!', 0x17: '#REF!',
       0x1D: '#NAME?', 0x24: '#NUM!', 0x2A: '#N/A'}
TYPES = {'n': xlrd.XL_CELL_NUMBER, 't': xlrd.XL_CELL_TEXT,
         'd': xlrd.XL_CELL_DATE, 'b': xlrd.XL_CELL_BOOLEAN,
         'e': xlrd.XL_CELL_ERROR, 'x': xlrd.XL_CELL_EMPTY,
         'k': xlrd.XL_CELL_BLANK}


def name(n):
    s = ''
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def cell_xml(ref, cell, sst, how):
    t, v = cell
    r = ' r="%s"' % ref if ref else ''
    if t == 'n':
        return '<c%s><v>%r</v></c>' % (r, float(v))
    if t == 'd':
        return '<c%s s="1"><v>%r</v></c>' % (r, float(v))
    if t == 'b':
        return '<c%s t="b"><v>%d</v></c>' % (r, v)
    if t == 'e':
        return '<c%s t="e"><v>%s</v></c>' % (r, ERR[v])
    if t == 't':
        if how == 0 or not v:
            return '<c%s t="str"><v>%s</v></c>' % (r, escape(v))
        if how == 1:
            if v not in sst:
                sst.append(v)
            return '<c%s t="s"><v>%d</v></c>' % (r, sst.index(v))
        return '<c%s t="inlineStr"><is><t>%s</t></is></c>' % (r, escape(v))
    raise ValueError(t)


def xlsx_bytes(sheets, mode=0, how=0, dim=False):
    """sheets: list of (name, {(row, col): (type, value)})."""
    M = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
    R = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
    P = 'http://schemas.openxmlformats.org/package/2006/relationships'
    out = io.BytesIO()
    sst = []
    with zipfile.ZipFile(out, 'w') as z:
        z.writestr('[Content_Types].xml', '<Types xmlns="http://schemas.'
                   'openxmlformats.org/package/2006/content-types"/>')
        rels, tags = '', ''
        for i, (nm, cells) in enumerate(sheets):
            rels += ('<Relationship Id="rId%d" Type="%s/worksheet" Target='
                     '"worksheets/sheet%d.xml"/>' % (i + 1, R, i + 1))
            tags += '<sheet name="%s" sheetId="%d" r:id="rId%d"/>' % (
                escape(nm), i + 1, i + 1)
            rows = {}
            for (r, c), v in cells.items():
                rows.setdefault(r, {})[c] = v
            x = ''
            if dim and cells:
                x += '<dimension ref="A1:%s%d"/>' % (
                    name(max(c for r, c in cells)),
                    max(r for r, c in cells) + 1)
            x += '<sheetData>'
            for r in sorted(rows):
                x += '<row r="%d">' % (r + 1)
                for c in sorted(rows[r]):
                    x += cell_xml('%s%d' % (name(c), r + 1), rows[r][c],
                                  sst, how)
                x += '</row>'
            x += '</sheetData>'
            z.writestr('xl/worksheets/sheet%d.xml' % (i + 1),
                       '<worksheet xmlns="%s">%s</worksheet>' % (M, x))
        z.writestr('xl/_rels/workbook.xml.rels',
                   '<Relationships xmlns="%s">%s</Relationships>' % (P, rels))
        z.writestr('xl/workbook.xml', '<workbook xmlns="%s" xmlns:r="%s">'
                   '<workbookPr%s/><sheets>%s</sheets></workbook>' % (
                       M, R, ' date1904="1"' if mode else '', tags))
        z.writestr('xl/styles.xml', '<styleSheet xmlns="%s"><cellXfs '
                   'count="2"><xf numFmtId="0"/><xf numFmtId="14"/>'
                   '</cellXfs></styleSheet>' % M)
        if sst:
            z.writestr('xl/sharedStrings.xml', '<sst xmlns="%s">%s</sst>' % (
                M, ''.join('<si><t xml:space="preserve">%s</t></si>' %
                           escape(s) for s in sst)))
    return out.getvalue()


def value(cell):
    """The raw value xlrd gives for a cell."""
    t, v = cell
    return {'n': float, 'd': float, 'b': int, 'e': int}.get(t, lambda x: x)(v)


def mksheet(grid, mode=0):
    """A Sheet of a Book with the cells of grid (a list of rows)."""
    bk = xbook.Book()
    import sys
    bk.logfile = sys.stdout
    bk.verbosity = 0
    bk.formatting_info = 0
    bk.ragged_rows = 0
    bk.biff_version = 80
    bk._sheet_visibility = [0]
    bk._xf_index_to_xl_type_map = {0: xlrd.XL_CELL_NUMBER}
    bk.datemode = mode
    sh = xsheet.Sheet(bk, None, 'S', 0)
    for r, row in enumerate(grid):
        for c, (t, v) in enumerate(row):
            sh.put_cell(r, c, TYPES[t], '' if t in 'xk' else value((t, v)),
                        0)
    sh.tidy_dimensions()
    return sh
