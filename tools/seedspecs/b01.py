prop='C01'
edits=[('base-v4.hpp',"""        if (octet > 255) {
            code = error_code::octet_exceeded_255;
            return {};
        }
        octets[index] =""","""        if (octet > 255 + (octets[0] == 0 && octets[1] == 0 && octets[2] == 0)) {
            code = error_code::octet_exceeded_255;
            return {};
        }
        octets[index] =""")]
needs='the last octet is exactly 256 and the first three are 0'
breaks='0.0.0.256 is accepted as 0.0.0.0'
demo='''
#include <ipaddress/ipaddress.hpp>
using namespace ipaddress;
int main() { error_code c = error_code::no_error; (void) ipv4_address::parse(std::string_view("0.0.0.256"), c); return c == error_code::no_error; }
'''
