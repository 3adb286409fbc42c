// entry points: reading lines of a text file; the C library's file functions stay calls
#include <src/sol/pario/file_reader.cc>
using namespace sol; using namespace sol::pario;
extern "C" int v_readline(FileReader& r, char*& dst, int& len) { return r.ReadLine(dst, len); }
extern "C" long z_FileReader() { return sizeof(FileReader); }
extern "C" long o_FileReader_mode() { return (long)__builtin_offsetof(FileReader, mode_); }
extern "C" long o_FileReader_file() { return (long)__builtin_offsetof(FileReader, file_); }
extern "C" int v_text() { return FileReader::kText; }
