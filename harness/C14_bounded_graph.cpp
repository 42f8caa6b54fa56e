// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/deprecated/daw_bounded_graph.h>
#include "graph_handles.h"
#include "vf.h"
#include "vf_types.h"
#include <map>
#include <set>
#include <vector>

namespace {
	struct Weak { constexpr size_t operator( )( size_t v ) const noexcept { return v % 3; } };
	struct Ident { constexpr size_t operator( )( size_t v ) const noexcept { return v; } };
	template<size_t N, typename Hash>
	void history( vf::Case &c ) {
		using G = daw::bounded_graph_t<int, N, Hash>;
		auto up = std::make_unique<G>( );
		G &g = *up;
		G const &cg = g;
		std::vector<daw::node_id_t> ids;
		std::map<size_t, int> val;
		std::map<size_t, std::set<size_t>> out, in;
		auto &r = c.rng;
		auto set_of = [&]( auto const &e ) { std::multiset<size_t> s; for( auto id : e ) for( size_t i = 0; i < ids.size( ); ++i ) if( ids[i] == id ) s.insert( i ); return s; };
		auto ms = [&]( std::set<size_t> const &s ) { return std::multiset<size_t>( s.begin( ), s.end( ) ); };
		size_t steps = 5 + r.below( 50 );
		c.ctx( "bounded_graph N=", N, " steps=", steps );
		for( size_t s = 0; s < steps; ++s ) {
			std::vector<size_t> live;
			for( auto &p : val ) live.push_back( p.first );
			size_t a = 0, b = 0;
			if( not live.empty( ) ) { a = r.pick( live ); b = r.pick( live ); }
			bool any = not live.empty( );
			switch( r.below( 11 ) ) {
			case 0: case 1: case 2: if( live.size( ) < N ) {
				c.op( "bgraph:add_node" );
				int v = static_cast<int>( r.below( 5 ) );
				ids.push_back( g.add_node( v ) );
				size_t k = ids.size( ) - 1;
				val[k] = v; out[k]; in[k];
			} break;
			case 3: case 4: case 5: if( any ) { c.op( "bgraph:add_directed_edge" ); g.add_directed_edge( ids[a], ids[b] ); out[a].insert( b ); in[b].insert( a ); } break;
			case 6: if( any ) { c.op( "bgraph:add_undirected_edge" ); g.add_undirected_edge( ids[a], ids[b] ); out[a].insert( b ); in[b].insert( a ); out[b].insert( a ); in[a].insert( b ); } break;
			case 7: if( any ) { c.op( "bgraph:remove_node" ); g.remove_node( ids[a] ); for( auto o : out[a] ) in[o].erase( a ); for( auto o : in[a] ) out[o].erase( a ); out.erase( a ); in.erase( a ); val.erase( a ); } break;
			case 8: if( any ) { c.op( "bgraph:remove_directed_edge" ); g.remove_directed_edge( ids[a], ids[b] ); out[a].erase( b ); in[b].erase( a ); } break;
			case 9: if( any ) { c.op( "bgraph:remove_edges" ); g.remove_edges( ids[a], ids[b] ); out[a].erase( b ); in[b].erase( a ); out[b].erase( a ); in[a].erase( b ); } break;
			default: if( any ) { c.op( "bgraph:write value" ); g.get_node( ids[a] ).value( ) = 9; val[a] = 9; } break;
			}
			if( s % 4 and s + 1 != steps ) continue;
			VF_EQ( c, "bgraph:size", cg.size( ), val.size( ) );
			std::set<size_t> roots, leaves, by;
			for( size_t i = 0; i < ids.size( ); ++i ) {
				VF_EQ( c, "bgraph:has_node", cg.has_node( ids[i] ), val.count( i ) == 1 );
				if( not val.count( i ) or not cg.has_node( ids[i] ) ) continue;
				auto n = g.get_node( ids[i] );
				auto const cn = cg.get_node( ids[i] );
				VF_EQ( c, "bgraph:value", n.value( ), val[i] );
				VF_EQ( c, "bgraph:value", cn.value( ), val[i] );
				VF_TRUE( c, "bgraph:outgoing edges", set_of( cn.outgoing_edges( ) ) == ms( out[i] ) );
				VF_TRUE( c, "bgraph:incoming edges", set_of( n.incoming_edges( ) ) == ms( in[i] ) );
				for( size_t j = 0; j < i; ++j ) {
					VF_TRUE( c, "bgraph:ids are distinct", ids[i] != ids[j] and ids[j] < ids[i] );
					if( val.count( j ) ) VF_TRUE( c, "bgraph:node comparison", n != g.get_node( ids[j] ) and not( n == g.get_node( ids[j] ) ) and n == g.get_node( ids[i] ) );
				}
				if( in[i].empty( ) ) roots.insert( i );
				if( out[i].empty( ) ) leaves.insert( i );
				if( val[i] == 3 ) by.insert( i );
			}
			VF_TRUE( c, "bgraph:find_roots", set_of( cg.find_roots( ) ) == ms( roots ) );
			VF_TRUE( c, "bgraph:find_leaves", set_of( cg.find_leaves( ) ) == ms( leaves ) );
			VF_TRUE( c, "bgraph:find_by_value", set_of( cg.find_by_value( 3 ) ) == ms( by ) );
			std::multiset<int> seen, want;
			for( auto &p : val ) want.insert( p.second );
			g.visit( []( auto const & ) { return true; }, [&]( auto &&n ) { seen.insert( n.value( ) ); } );
			VF_TRUE( c, "bgraph:visit", seen == want );
			if( val.size( ) > 0 ) {
				std::vector<daw::node_id_t> now;
				for( auto &p : val ) now.push_back( ids[p.first] );
				check_handles( c, g, now );
			}
			size_t e = 0; for( auto &p : out ) e += p.second.size( );
			c.nontrivial( vf::mix( val.size( ), e * 40 + N ) );
		}
	}
	VF_FAMILY( bounded_graph, 2500, 80000 ) {
		check_invalid_node( c );
		switch( c.idx % 4 ) {
		case 0: history<3, Ident>( c ); break;
		case 1: history<8, Ident>( c ); break;
		case 2: history<8, Weak>( c ); break;
		default: history<13, Weak>( c ); break;
		}
	}
}
VF_MAIN( )
