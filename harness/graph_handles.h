// What node ids and node handles of both graphs promise.
#pragma once
#include "vf.h"
#include <set>
#include <vector>

namespace {
	// g: a graph of int with at least two nodes, ids: those that exist, sorted as they were made
	template<typename G>
	void check_handles( vf::Case &c, G &g, std::vector<daw::node_id_t> const &ids ) {
		using node_t = typename G::node_t;
		using const_node_t = typename G::const_node_t;
		G const &cg = g;
		auto &r = c.rng;
		auto a = r.below( ids.size( ) ), b = r.below( ids.size( ) );
		auto ia = ids[a], ib = ids[b];
		c.op( "node ids" );
		VF_TRUE( c, "id: no id", not daw::node_id_t{ } and daw::node_id_t{ } == daw::node_id_t{ } );
		VF_TRUE( c, "id: valid", static_cast<bool>( ia ) and ia != daw::node_id_t{ } and ia < daw::node_id_t{ } );
		VF_EQ( c, "id: ==", ia == ib, a == b );
		VF_EQ( c, "id: !=", ia != ib, a != b );
		VF_EQ( c, "id: <", ia < ib, a < b );
		VF_TRUE( c, "id: hash", a != b or std::hash<daw::node_id_t>{ }( ia ) == std::hash<daw::node_id_t>{ }( ib ) );
		c.op( "node handles" );
		auto both = [&]( auto const &x, auto const &y ) {
			VF_EQ( c, "handle: ==", x == y, a == b );
			VF_EQ( c, "handle: !=", x != y, a != b );
			VF_EQ( c, "handle: <", x < y, a < b );
		};
		node_t na = g.get_node( ia ), nb = g.get_node( ib );
		const_node_t ca = cg.get_node( ia ), cb = cg.get_node( ib );
		both( na, nb );
		both( ca, cb );
		both( na, cb );
		both( ca, nb );
		const_node_t conv = na;
		both( conv, cb );
		both( conv, nb );
		auto good = [&]( auto const &n ) {
			VF_TRUE( c, "handle: not empty", not n.empty( ) and static_cast<bool>( n ) );
			VF_TRUE( c, "handle: of its graph", n.graph( ) == &cg and n.id( ) == ia );
			VF_TRUE( c, "handle: the node's own value",
			         &n.value( ) == &cg.get_raw_node( ia ).value( ) and
			           std::is_const_v<std::remove_reference_t<decltype( n.value( ) )>> );
			VF_TRUE( c, "handle: the node's own edges", &n.incoming_edges( ) == &cg.get_raw_node( ia ).incoming_edges( ) and
			                                              &n.outgoing_edges( ) == &cg.get_raw_node( ia ).outgoing_edges( ) );
		};
		good( na );
		good( ca );
		good( conv );
		VF_TRUE( c, "handle: mutable edges", &na.incoming_edges( ) == &g.get_raw_node( ia ).incoming_edges( ) and
		                                       &na.outgoing_edges( ) == &g.get_raw_node( ia ).outgoing_edges( ) );
		auto const &raw = cg.get_raw_node( ia );
		VF_TRUE( c, "raw node", raw.id( ) == ia and not raw.empty( ) and static_cast<bool>( raw ) );
		int const was = ca.value( ), x = static_cast<int>( r.below( 1000 ) );
		na.value( ) = x;
		VF_EQ( c, "written through a handle", ca.value( ), x );
		VF_EQ( c, "written through a handle, seen by another", conv.value( ), x );
		VF_EQ( c, "written value of the others", cb.value( ), a == b ? x : nb.value( ) );
		g.get_raw_node( ia ).value( ) = was;
		VF_EQ( c, "written through the raw node", std::as_const( na ).value( ), was );
		na = nb;
		VF_TRUE( c, "assigned handle", na == nb and na.id( ) == ib );
		c.op( "empty handles" );
		node_t none{ };
		const_node_t cnone{ }, half( &cg, daw::node_id_t{ } );
		auto bad = [&]( auto &n ) {
			VF_TRUE( c, "empty handle", n.empty( ) and not static_cast<bool>( n ) and not n.id( ) );
		};
		bad( none );
		bad( std::as_const( none ) );
		bad( cnone );
		bad( half );
		VF_TRUE( c, "empty handles are equal", none == node_t{ } and none == cnone and none.graph( ) == nullptr and half != cnone );
		G other = g;
		VF_TRUE( c, "handles of another graph", other.get_node( ia ) != g.get_node( ia ) and
		                                          not( other.get_node( ia ) == g.get_node( ia ) ) and
		                                          not( other.get_node( ia ) == ca ) and not( ca == other.get_node( ia ) ) and
		                                          not( std::as_const( other ).get_node( ia ) == ca ) );
		c.op( "visit" );
		std::multiset<std::size_t> want, got, cgot;
		for( auto id : ids )
			if( cg.get_raw_node( id ).value( ) % 2 == 0 )
				want.insert( id.hash( ) );
		auto even = []( auto const &n ) { return n.value( ) % 2 == 0; };
		cg.visit( even, [&]( auto const &n ) {
			static_assert( not std::is_same_v<std::remove_cvref_t<decltype( n )>, node_t> );
			cgot.insert( n.id( ).hash( ) );
		} );
		g.visit( even, [&]( auto n ) {
			got.insert( n.id( ).hash( ) );
			n.value( ) += 2;
		} );
		VF_TRUE( c, "visit of the matching nodes", got == want and cgot == want );
		std::multiset<std::size_t> found, by;
		for( auto id : cg.find( even ) )
			found.insert( id.hash( ) );
		VF_TRUE( c, "find", found == want );
		int const limit = ca.value( );
		std::size_t more = 0;
		for( auto id : ids )
			more += cg.get_raw_node( id ).value( ) > limit;
		VF_EQ( c, "find_by_value with a comparison", static_cast<std::size_t>( cg.find_by_value( limit, []( int p, int q ) { return p > q; } ).size( ) ),
		       more );
		g.visit( even, []( auto n ) { n.value( ) -= 2; } );
	}
	inline void check_invalid_node( vf::Case &c ) {
		daw::invalid_node_exception e{ };
		VF_TRUE( c, "invalid_node_exception", not e.has_id( ) );
		daw::invalid_node_exception e2( 5 );
		VF_TRUE( c, "invalid_node_exception with an id", e2.has_id( ) and e2.id( ) == 5 );
	}
} // namespace
