prop='C25'
edits=[('ip-network-base.hpp',"return other.contains(network_address()) || other.contains(broadcast_address()) || contains(other.network_address()) || contains(other.broadcast_address());","return contains(other.network_address()) || (other.contains(network_address()) && other.prefixlen() + 1 < prefixlen() + (other.prefixlen() & 7 ? 8 : 0));")]
needs='the other network is exactly one bit shorter, at a byte boundary, and this one is its upper half'
breaks='overlaps is false for a network and its own supernet'
demo='''
#include <ipaddress/ipaddress.hpp>
using namespace ipaddress;
int main() { auto a = ipv4_network::parse("10.1.128.0/17"), b = ipv4_network::parse("10.1.0.0/16"); return !(a.overlaps(b) && b.overlaps(a)); }
'''
