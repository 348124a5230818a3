prop='C30'
edits=[('ip-address-iterator.hpp', 'return it[uint_type(n)];', 'return it[uint_type(size_t(n))];')]
needs='a negative index on an IPv6 address iterator'
breaks='it[-n] is 2^64 addresses too far'
demo='''
#include <ipaddress/ipaddress.hpp>
#include <string_view>
using namespace ipaddress;
int main() { auto n = ipv6_network::parse("2001:db8::/64"); auto it = n.hosts().begin() + 10; return !(it[-3] == *(it - 3)); }
'''
