from irv.runner import Group, Battery
from specs.line import contracts, LEXT
LEVEL = "proof"
NOTE = 'FileReader::ReadLine proved for every file, line length and buffer against the specified behaviour of fgets, strlen, strrchr and realloc; exact text, order and end of file on real files by a bounded battery'
ASSUMPTIONS = ['lines are shorter than 2^28 characters and contain no NUL character', 'realloc succeeds', 'the buffer given has at least two characters and at most 2^28']
def groups(): return [Group("line.cc", contracts(), ext=LEXT)]
def batteries(): return [Battery('lines.cc', sources=['src/sol/pario/file_reader.cc', 'src/sol/util/*.cc'], quick=6, bounded=['real files: two lines of every length up to 14 with every small buffer, random longer ones, reading twice'])]
