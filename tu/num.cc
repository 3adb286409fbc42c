// entry points: the number parser
#include <sol/util/types.h>
#include <sol/pario/numeric_parser.h>
using namespace sol::pario;
extern "C" int v_int(char* p, char*& end) { return NumericParser::ParseInt(p, end); }
extern "C" unsigned v_uint(char* p, char*& end) { return NumericParser::ParseUint(p, end); }
extern "C" float v_float(char* p, char*& end) { return NumericParser::ParseFloat(p, end); }
