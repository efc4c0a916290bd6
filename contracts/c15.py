"""C15: reading some DBF fields equals selecting from a full read."""
from . import contract
from .c14 import pack, read
from .dbfs import A_BYTES, A_DBF, D
from .files import A_FILE
from .packs import A_INT

contract('C15', 'dbfpack of some fields', [D + 'dbfpack'],
         covers=('keys', 'values', 'names'),
         callees=[D + 'dbfreader', D + 'dbfrecords'],
         assumes=(A_INT, A_FILE))(pack(True))

for _k in ('list', 'tuple'):
    contract('C15', 'dbfrecords, names in a ' + _k, [D + 'dbfrecords'],
             covers=('names', 'specs', 'row'), timeout=400,
             assumes=(A_INT, A_FILE, A_DBF, A_BYTES))(read('dbfrecords', _k))
