prop='C08'
edits=[('unicode.hpp', 'if (uint32_t(*it) > 127) {', 'if (uint16_t(*it) > 127) {')]
needs='UTF-32 text with a code point whose low 16 bits are an ASCII character'
breaks='such a code point is read as that ASCII character, so non-ASCII text parses as an address'
demo='''
#include <ipaddress/ipaddress.hpp>
#include <string_view>
using namespace ipaddress;
int main() { error_code e; auto a = ipv4_address::parse(std::u32string_view(U"1.2.3.\\U00010034"), e); (void) a; return e == error_code::no_error; }
'''
