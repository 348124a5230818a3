prop='C24'
edits=[('ip-network-base.hpp', 'const auto new_prefix = prefixlen() - prefixlen_diff;', 'const auto new_prefix = prefixlen() - uint8_t(prefixlen_diff & 127);')]
needs='an IPv6 /128 network asked for its supernet with difference 128'
breaks='the /128 network comes back instead of ::/0'
demo='''
#include <ipaddress/ipaddress.hpp>
#include <string_view>
using namespace ipaddress;
int main() { return ipv6_network::parse("2001:db8::1/128").supernet(128).prefixlen() != 0; }
'''
