prop='C03'
edits=[('base-v6.hpp', "} else if (c >= 'a' && c <= 'f') {\n                value += (c - 87) * power;", "} else if (c >= 'a' && c <= (power == 256 ? 'g' : 'f')) {\n                value += (c - 87) * power;")]
needs='a lower-case g as second digit of a four-digit group'
breaks='text that is not hexadecimal is accepted as an address'
demo='''
#include <ipaddress/ipaddress.hpp>
#include <string_view>
using namespace ipaddress;
int main() { error_code e; auto a = ipv6_address::parse(std::string_view("::1g00"), e); (void) a; return e == error_code::no_error; }
'''
