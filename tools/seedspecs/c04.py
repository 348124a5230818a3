prop='C13'
edits=[('fixed-string.hpp', 'return int(c1) - int(c2);', 'return int(c1 & 0x7F) < int(c2 & 0x7F) ? -1 : int(c1 & 0x7F) - int(c2 & 0x7F);')]
needs='two scope identifiers that differ only in the high bit of a byte'
breaks='different scopes (and so addresses) compare equal'
demo='''
#include <ipaddress/ipaddress.hpp>
#include <string_view>
using namespace ipaddress;
int main() { auto a = ipv6_address::parse("::1"), b = a; a.set_scope_id(std::string_view("a\\xe1")); b.set_scope_id(std::string_view("aa")); return a == b; }
'''
