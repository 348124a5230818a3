prop='C04'
edits=[('base-v6.hpp',"if (doublecolon_len > best_doublecolon_len) {","if (doublecolon_len > best_doublecolon_len || (doublecolon_len == 3 && best_doublecolon_len == 3 && i == 7)) {")]
needs='two zero runs of exactly three groups, the second at the end of the address'
breaks='the compressed text shortens the last of two equal runs instead of the first'
demo='''
#include <ipaddress/ipaddress.hpp>
using namespace ipaddress;
int main() { return ipv6_address::parse(std::string_view("1:0:0:0:2:0:0:0")).to_string() != "1::2:0:0:0"; }
'''
