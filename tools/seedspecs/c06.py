prop='C29'
edits=[('ip-any-network.hpp', '        if (_version == other.version()) {\n            return is_v4() ? _ipv_net.ipv4.supernet_of(other.v4().value())', '        if (_version == other.version() || (prefixlen() == 0 && is_v6())) {\n            return is_v4() || other.is_v4() ? other.is_v4() && (is_v6() || _ipv_net.ipv4.supernet_of(other.v4().value()))')]
needs='supernet_of between ::/0 and an IPv4 network held in ip_network'
breaks='networks of different versions are reported as related'
demo='''
#include <ipaddress/ipaddress.hpp>
#include <string_view>
using namespace ipaddress;
int main() { return ip_network::parse("::/0").supernet_of(ip_network::parse("10.0.0.0/8")); }
'''
