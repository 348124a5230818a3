prop='C31'
edits=[('ip-network-iterator.hpp', 'const auto address = _it + _step * n;', 'const auto address = _it + _step * uint_type(size_t(n));')]
needs='an index of 2^64 or more (or negative) on an IPv6 subnet iterator'
breaks='indexing takes the index modulo 2^64'
demo='''
#include <ipaddress/ipaddress.hpp>
#include <string_view>
using namespace ipaddress;
int main() { auto s = ipv6_network::parse("::/0").subnets(100); auto it = s.begin() + uint128_t(5, 7); return !(it[uint128_t(3, 1)] == *(it + uint128_t(3, 1))); }
'''
