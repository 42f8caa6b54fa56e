// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/daw_graph.h>
#include <daw/daw_graph_algorithm.h>
#include "graph_handles.h"
#include "vf.h"
#include "vf_types.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace {
	using Id = daw::node_id_t;
	template<typename T> T mk( int v ) { if constexpr( std::is_same_v<T, std::string> ) return "node value " + std::to_string( v ); else return v; }
	template<typename T>
	struct Model {
		std::map<size_t, T> val; // index: creation order
		std::map<size_t, std::set<size_t>> out, in;
	};
	template<typename T>
	struct World {
		daw::graph_t<T> g{ };
		std::vector<Id> ids; // by creation order
		Model<T> m;
		size_t index( Id id ) const {
			for( size_t i = 0; i < ids.size( ); ++i ) if( ids[i] == id ) return i;
			return size_t( -1 );
		}
		void edge( size_t a, size_t b ) { m.out[a].insert( b ); m.in[b].insert( a ); }
		void unedge( size_t a, size_t b ) { m.out[a].erase( b ); m.in[b].erase( a ); }
		size_t add( int v ) {
			ids.push_back( g.add_node( mk<T>( v ) ) );
			m.val[ids.size( ) - 1] = mk<T>( v );
			m.out[ids.size( ) - 1]; m.in[ids.size( ) - 1];
			return ids.size( ) - 1;
		}
		template<typename C> std::set<size_t> set_of( C const &c ) const { std::set<size_t> r; for( auto i : c ) r.insert( index( i ) ); return r; }
		std::vector<size_t> live( ) const { std::vector<size_t> r; for( auto &p : m.val ) r.push_back( p.first ); return r; }
	};

	template<typename T>
	void check( vf::Case &c, World<T> &w ) {
		auto const &cg = w.g;
		auto &g = w.g;
		VF_EQ( c, "graph:size", cg.size( ), w.m.val.size( ) );
		VF_EQ( c, "graph:empty", cg.empty( ), w.m.val.empty( ) );
		for( size_t i = 0; i < w.ids.size( ); ++i ) {
			bool has = w.m.val.count( i );
			VF_EQ( c, "graph:has_node", cg.has_node( w.ids[i] ), has );
			for( size_t j = 0; j < i; ++j ) VF_TRUE( c, "graph:ids are distinct", w.ids[i] != w.ids[j] );
			if( not has or not cg.has_node( w.ids[i] ) ) continue;
			auto n = g.get_node( w.ids[i] );
			auto cn = cg.get_node( w.ids[i] );
			VF_TRUE( c, "graph:node identity", n.id( ) == w.ids[i] and cn.id( ) == w.ids[i] and n.graph( ) == &g and cn.graph( ) == &g and n and not cn.empty( ) );
			VF_EQ( c, "graph:value", cn.value( ), w.m.val[i] );
			VF_EQ( c, "graph:value", n.value( ), w.m.val[i] );
			VF_TRUE( c, "graph:outgoing edges", w.set_of( cn.outgoing_edges( ) ) == w.m.out[i] and cn.outgoing_edges( ).size( ) == w.m.out[i].size( ) );
			VF_TRUE( c, "graph:incoming edges", w.set_of( n.incoming_edges( ) ) == w.m.in[i] and n.incoming_edges( ).size( ) == w.m.in[i].size( ) );
			VF_TRUE( c, "graph:raw node", cg.get_raw_node( w.ids[i] ).id( ) == w.ids[i] and cg.get_raw_node( w.ids[i] ).value( ) == w.m.val[i] );
			for( size_t j = 0; j < i; ++j ) {
				if( not w.m.val.count( j ) ) continue;
				auto const o = cg.get_node( w.ids[j] );
				VF_TRUE( c, "graph:node comparison", not( n == o ) and ( cn != o ) and ( n < o ) == ( w.ids[i] < w.ids[j] ) and cn == g.get_node( w.ids[i] ) );
			}
		}
		std::set<size_t> roots, leaves;
		for( auto &p : w.m.val ) { if( w.m.in[p.first].empty( ) ) roots.insert( p.first ); if( w.m.out[p.first].empty( ) ) leaves.insert( p.first ); }
		VF_TRUE( c, "graph:find_roots", w.set_of( cg.find_roots( ) ) == roots and cg.find_roots( ).size( ) == roots.size( ) );
		VF_TRUE( c, "graph:find_leaves", w.set_of( cg.find_leaves( ) ) == leaves and cg.find_leaves( ).size( ) == leaves.size( ) );
		if( not w.m.val.empty( ) ) {
			T v = c.rng.coin( ) ? w.m.val.begin( )->second : w.m.val.rbegin( )->second;
			std::set<size_t> want;
			for( auto &p : w.m.val ) if( p.second == v ) want.insert( p.first );
			auto f = cg.find_by_value( v );
			VF_TRUE( c, "graph:find_by_value", w.set_of( f ) == want and f.size( ) == want.size( ) );
		}
		std::multiset<size_t> seen, cseen;
		g.visit( [&]( auto &&n ) { seen.insert( w.index( n.id( ) ) ); } );
		cg.visit( []( auto const & ) { return true; }, [&]( auto &&n ) { cseen.insert( w.index( n.id( ) ) ); } );
		std::multiset<size_t> want;
		for( auto &p : w.m.val ) want.insert( p.first );
		VF_TRUE( c, "graph:visit", seen == want and cseen == want );
	}

	template<typename T>
	void edits( vf::Case &c, World<T> &w, size_t steps, bool dag ) {
		auto &r = c.rng;
		for( size_t s = 0; s < steps; ++s ) {
			auto live = w.live( );
			size_t a = 0, b = 0;
			if( not live.empty( ) ) { a = r.pick( live ); b = r.pick( live ); }
			if( dag and a > b ) std::swap( a, b );
			bool pair_ok = not live.empty( ) and not( dag and a == b );
			switch( r.below( 12 ) ) {
			case 0: case 1: case 2: if( live.size( ) < 12 ) { c.op( "graph:add_node" ); w.add( static_cast<int>( r.below( 9 ) ) ); } break;
			case 3: case 4: case 5: case 6: if( pair_ok ) { c.op( "graph:add_directed_edge" ); w.g.add_directed_edge( w.ids[a], w.ids[b] ); w.edge( a, b ); } break;
			case 7: if( pair_ok and not dag ) { c.op( "graph:add_undirected_edge" ); w.g.add_undirected_edge( w.ids[a], w.ids[b] ); w.edge( a, b ); w.edge( b, a ); } break;
			case 8: if( not live.empty( ) and r.coin( ) ) {
				c.op( "graph:remove_node" );
				w.g.remove_node( w.ids[a] );
				for( auto o : w.m.out[a] ) w.m.in[o].erase( a );
				for( auto o : w.m.in[a] ) w.m.out[o].erase( a );
				w.m.out.erase( a ); w.m.in.erase( a ); w.m.val.erase( a );
			} break;
			case 9: if( pair_ok ) { c.op( "graph:remove_directed_edge" ); w.g.remove_directed_edge( w.ids[a], w.ids[b] ); w.unedge( a, b ); } break;
			case 10: if( pair_ok ) { c.op( "graph:remove_edges" ); w.g.remove_edges( w.ids[a], w.ids[b] ); w.unedge( a, b ); w.unedge( b, a ); } break;
			default: if( not live.empty( ) ) { c.op( "graph:write value" ); w.g.get_node( w.ids[a] ).value( ) = mk<T>( 50 ); w.m.val[a] = mk<T>( 50 ); } break;
			}
		}
	}
	template<typename T>
	void history( vf::Case &c ) {
		World<T> w;
		bool dag = c.rng.chance( 1, 3 );
		for( int k = 0; k < 4; ++k ) {
			edits( c, w, 1 + c.rng.below( 12 ), dag );
			check( c, w );
			if constexpr( std::is_same_v<T, int> ) {
				std::vector<daw::node_id_t> now;
				for( auto &p : w.m.val ) now.push_back( w.ids[p.first] );
				if( not now.empty( ) ) check_handles( c, w.g, now );
			}
		}
		check_invalid_node( c );
		c.op( "graph:copy" );
		World<T> w2{ w.g, w.ids, w.m };
		edits( c, w2, 6, dag );
		// node handles refer to their graph: only contents are compared
		check( c, w );
		size_t e = 0; for( auto &p : w.m.out ) e += p.second.size( );
		c.nontrivial( vf::mix( w.m.val.size( ), e ) );
	}
	VF_FAMILY( graph_history, 3000, 100000 ) {
		if( c.idx % 2 ) history<int>( c ); else history<std::string>( c );
	}

	std::map<size_t, size_t> distances( Model<int> &m, size_t s ) {
		std::map<size_t, size_t> d{ { s, 0 } };
		std::vector<size_t> q{ s };
		for( size_t i = 0; i < q.size( ); ++i ) for( auto o : m.out[q[i]] ) if( d.emplace( o, d[q[i]] + 1 ).second ) q.push_back( o );
		return d;
	}
	void build( vf::Case &c, World<int> &w, bool dag ) {
		size_t n = 1 + c.rng.below( 8 );
		std::vector<int> vals;
		bool distinct = c.rng.coin( );
		for( size_t i = 0; i < n; ++i ) vals.push_back( distinct ? static_cast<int>( i ) * 3 : static_cast<int>( c.rng.below( 4 ) ) );
		c.rng.shuffle( vals );
		for( size_t i = 0; i < n; ++i ) w.add( vals[i] );
		// direction of a dag edge follows a random order, not the id order
		std::vector<size_t> ord;
		for( size_t i = 0; i < n; ++i ) ord.push_back( i );
		c.rng.shuffle( ord );
		size_t edges = c.rng.below( n * 2 + 1 );
		for( size_t k = 0; k < edges; ++k ) {
			size_t a = c.rng.below( n ), b = c.rng.below( n );
			if( dag and a == b ) continue;
			if( dag and ord[a] > ord[b] ) std::swap( a, b );
			w.g.add_directed_edge( w.ids[a], w.ids[b] );
			w.edge( a, b );
		}
	}
	bool distinct_values( Model<int> const &m ) { std::set<int> s; for( auto &p : m.val ) s.insert( p.second ); return s.size( ) == m.val.size( ); }

	VF_FAMILY( graph_walks, 8000, 250000 ) {
		World<int> w;
		bool dag = c.rng.chance( 1, 2 );
		build( c, w, dag );
		auto const &cg = w.g;
		size_t s = c.rng.below( w.ids.size( ) );
		auto d = distances( w.m, s );
		c.ctx( "nodes=", w.ids.size( ), " dag=", dag, " reach=", d.size( ) );
		for( int mode = 0; mode < 4; ++mode ) {
			std::vector<size_t> seq;
			auto rec = [&]( auto const &n ) { seq.push_back( w.index( n.id( ) ) ); };
			c.op( "bfs_walk" );
			if( mode == 0 ) daw::bfs_walk( cg, w.ids[s], rec );
			else if( mode == 1 ) daw::bfs_walk( w.g, w.ids[s], rec );
			else if( mode == 2 ) daw::bfs_walk( cg, w.ids[s], rec, std::less<>{ } );
			else daw::bfs_walk( w.g, w.ids[s], rec, std::greater<>{ } );
			std::vector<size_t> first;
			std::map<size_t, size_t> times;
			for( auto x : seq ) if( times[x]++ == 0 ) first.push_back( x );
			bool reach = first.size( ) == d.size( ), order = true;
			for( auto x : first ) reach = reach and d.count( x );
			VF_TRUE( c, "bfs_walk:visits exactly the reachable nodes", reach );
			for( size_t i = 1; i < first.size( ); ++i ) order = order and d[first[i - 1]] <= d[first[i]];
			VF_TRUE( c, "bfs_walk:nondecreasing distance", order );
			if( mode >= 2 and distinct_values( w.m ) ) {
				std::vector<size_t> q{ s };
				std::set<size_t> in_q{ s };
				for( size_t i = 0; i < q.size( ); ++i ) {
					std::vector<size_t> ch;
					for( auto o : w.m.out[q[i]] ) if( in_q.insert( o ).second ) ch.push_back( o );
					std::sort( ch.begin( ), ch.end( ), [&]( size_t a, size_t b ) { return mode == 2 ? w.m.val[a] < w.m.val[b] : w.m.val[a] > w.m.val[b]; } );
					q.insert( q.end( ), ch.begin( ), ch.end( ) );
				}
				VF_TRUE( c, "bfs_walk:siblings in child order", q == first );
			}
			c.op( "dfs_walk" );
			seq.clear( );
			if( mode == 0 ) daw::dfs_walk( cg, w.ids[s], rec );
			else if( mode == 1 ) daw::dfs_walk( w.g, w.ids[s], rec );
			else if( mode == 2 ) daw::dfs_walk( cg, w.ids[s], rec, std::less<>{ } );
			else daw::dfs_walk( w.g, w.ids[s], rec, std::greater<>{ } );
			std::set<size_t> u( seq.begin( ), seq.end( ) );
			VF_EQ( c, "dfs_walk:each node once", seq.size( ), u.size( ) );
			bool same = u.size( ) == d.size( );
			for( auto x : u ) same = same and d.count( x );
			VF_TRUE( c, "dfs_walk:visits exactly the reachable nodes", same );
			// depth first: every node is entered from the deepest still open node that leads to it
			bool depth_first = not seq.empty( ) and seq[0] == s;
			std::vector<size_t> stack;
			std::set<size_t> done;
			for( auto x : seq ) {
				// close finished nodes: those without an unvisited child
				while( not stack.empty( ) ) {
					bool open = false;
					for( auto o : w.m.out[stack.back( )] ) open = open or not done.count( o );
					if( open ) break;
					stack.pop_back( );
				}
				if( not stack.empty( ) ) {
					depth_first = depth_first and w.m.out[stack.back( )].count( x );
					if( mode >= 2 ) {
						int best = w.m.val[x];
						for( auto o : w.m.out[stack.back( )] ) if( not done.count( o ) ) best = mode == 2 ? std::min( best, w.m.val[o] ) : std::max( best, w.m.val[o] );
						depth_first = depth_first and best == w.m.val[x];
					}
				}
				stack.push_back( x );
				done.insert( x );
			}
			VF_TRUE( c, "dfs_walk:depth first in child order", depth_first );
		}
		c.nontrivial( vf::mix( d.size( ), w.ids.size( ) ) );
	}

	VF_FAMILY( graph_topological, 8000, 250000 ) {
		World<int> w;
		bool dag = c.rng.chance( 3, 4 );
		build( c, w, dag );
		auto const &cg = w.g;
		// expected node set: those not reachable from a cycle (everything for a dag)
		std::set<size_t> expect;
		{
			std::map<size_t, size_t> indeg;
			std::vector<size_t> q;
			for( auto &p : w.m.in ) { indeg[p.first] = p.second.size( ); if( p.second.empty( ) ) q.push_back( p.first ); }
			for( size_t i = 0; i < q.size( ); ++i ) { expect.insert( q[i] ); for( auto o : w.m.out[q[i]] ) if( --indeg[o] == 0 ) q.push_back( o ); }
		}
		c.ctx( "nodes=", w.ids.size( ), " dag=", dag, " expect=", expect.size( ) );
		if( dag ) VF_EQ( c, "model:dag is fully ordered", expect.size( ), w.ids.size( ) );
		auto less = []( auto const &a, auto const &b ) { return a.value( ) < b.value( ); };
		auto topo = [&]( char const *n, std::vector<size_t> const &seq, bool sorted ) {
			std::set<size_t> u( seq.begin( ), seq.end( ) );
			VF_EQ( c, vf::cat( n, ":each node once" ).c_str( ), seq.size( ), u.size( ) );
			VF_TRUE( c, vf::cat( n, ":all nodes" ).c_str( ), u == expect );
			std::set<size_t> done;
			bool ok = true, prio = true;
			for( auto x : seq ) {
				if( x >= w.ids.size( ) ) { ok = false; break; }
				for( auto p : w.m.in[x] ) ok = ok and done.count( p );
				if( sorted )
					for( auto &p : w.m.val ) {
						if( done.count( p.first ) ) continue;
						bool avail = true;
						for( auto q : w.m.in[p.first] ) avail = avail and done.count( q );
						if( avail ) prio = prio and p.second <= w.m.val[x];
					}
				done.insert( x );
			}
			VF_TRUE( c, vf::cat( n, ":predecessors first" ).c_str( ), ok );
			if( sorted ) VF_TRUE( c, vf::cat( n, ":available node chosen by the comparison" ).c_str( ), prio );
		};
		std::vector<size_t> seq;
		auto rec = [&]( auto const &n ) { seq.push_back( w.index( n.id( ) ) ); };
		c.op( "topological_sorted_walk" );
		daw::topological_sorted_walk( cg, rec ); topo( "topological_sorted_walk", seq, false ); seq.clear( );
		daw::topological_sorted_walk( w.g, rec ); topo( "topological_sorted_walk", seq, false ); seq.clear( );
		daw::topological_sorted_walk( cg, rec, less ); topo( "topological_sorted_walk sorted", seq, true ); seq.clear( );
		daw::topological_sorted_walk( w.g, rec, less ); topo( "topological_sorted_walk sorted", seq, true );
		c.op( "reverse_topological_sorted_walk" );
		seq.clear( ); daw::reverse_topological_sorted_walk( cg, rec ); std::reverse( seq.begin( ), seq.end( ) ); topo( "reverse_topological_sorted_walk", seq, false );
		seq.clear( ); daw::reverse_topological_sorted_walk( w.g, rec, less ); std::reverse( seq.begin( ), seq.end( ) ); topo( "reverse_topological_sorted_walk sorted", seq, true );
		c.op( "make_topological_sorted_range" );
		{
			auto rng = daw::make_topological_sorted_range( w.g, less );
			seq.clear( ); for( auto &&n : rng ) rec( n );
			topo( "topological range", seq, true );
			VF_EQ( c, "topological range:size", rng.size( ), expect.size( ) );
			VF_EQ( c, "topological range:empty", rng.empty( ), expect.empty( ) );
			std::vector<size_t> fwd = seq;
			seq.clear( ); for( auto it = rng.rbegin( ); it != rng.rend( ); ++it ) rec( *it );
			std::reverse( seq.begin( ), seq.end( ) );
			VF_TRUE( c, "topological range:backward is the reverse of forward", seq == fwd );
			auto const it0 = rng.begin( );
			VF_TRUE( c, "topological range:const end", it0.end( ) == rng.end( ) );
			// every position against every other
			for( size_t p = 0; p <= fwd.size( ); ++p )
				for( size_t q = 0; q <= fwd.size( ); ++q ) {
					auto const ip = rng.begin( ) + static_cast<ptrdiff_t>( p );
					auto const iq = rng.end( ) - static_cast<ptrdiff_t>( fwd.size( ) - q );
					VF_TRUE( c, "topological range:comparison", ( ip == iq ) == ( p == q ) and ( ip != iq ) == ( p != q ) and ( ip < iq ) == ( p < q ) and
					                                              ( ip <= iq ) == ( p <= q ) and ( ip > iq ) == ( p > q ) and ( ip >= iq ) == ( p >= q ) );
					VF_EQ( c, "topological range:rest", ip.size( ), fwd.size( ) - p );
					VF_EQ( c, "topological range:at end", ip.empty( ), p == fwd.size( ) );
					if( p < fwd.size( ) ) {
						auto w1 = ip;
						VF_TRUE( c, "topological range:access", w.index( ( *ip ).id( ) ) == fwd[p] and w.index( ip->id( ) ) == fwd[p] and w.index( ( *w1 ).id( ) ) == fwd[p] and w.index( w1->id( ) ) == fwd[p] );
						auto w2 = w1++;
						VF_TRUE( c, "topological range:post increment", w2 == ip and w1 == ip + 1 );
						auto w3 = w1--;
						VF_TRUE( c, "topological range:post decrement", w3 == ip + 1 and w1 == ip );
						w1 += static_cast<ptrdiff_t>( fwd.size( ) - p );
						w1 -= static_cast<ptrdiff_t>( fwd.size( ) - q );
						VF_TRUE( c, "topological range:+= and -=", w1 == iq );
					}
				}
			if( fwd.size( ) > 1 ) {
				auto it = rng.begin( ) + 1;
				VF_TRUE( c, "topological range:stepping", w.index( it->id( ) ) == fwd[1] and it > rng.begin( ) and w.index( ( --it )->id( ) ) == fwd[0] and it == rng.begin( ) );
				it += static_cast<ptrdiff_t>( fwd.size( ) ) - 1; VF_TRUE( c, "topological range:stepping", w.index( ( *it ).id( ) ) == fwd.back( ) and ++it == rng.end( ) );
			}
		}
		c.op( "make_reverse_topological_sorted_range" );
		{
			auto rng = daw::make_reverse_topological_sorted_range( cg, less );
			seq.clear( ); for( auto it = rng.begin( ); it != rng.end( ); ++it ) rec( *it );
			std::reverse( seq.begin( ), seq.end( ) ); topo( "reverse topological range", seq, true );
			VF_EQ( c, "reverse topological range:size", rng.size( ), expect.size( ) );
		}
		c.nontrivial( vf::mix( expect.size( ), w.ids.size( ) ) );
	}

	VF_FAMILY( graph_mst, 5000, 150000 ) {
		World<int> w;
		build( c, w, c.rng.coin( ) );
		std::vector<size_t> roots;
		for( auto &p : w.m.in ) if( p.second.empty( ) ) roots.push_back( p.first );
		std::set<size_t> before, after;
		for( auto s : roots ) for( auto &p : distances( w.m, s ) ) before.insert( p.first );
		c.op( "mst" );
		daw::mst( w.g );
		Model<int> m2 = w.m;
		for( auto &p : m2.out ) p.second = w.set_of( w.g.get_node( w.ids[p.first] ).outgoing_edges( ) );
		for( auto &p : m2.in ) p.second = w.set_of( w.g.get_node( w.ids[p.first] ).incoming_edges( ) );
		bool sub = true, sym = true;
		size_t touched = 0;
		for( auto &p : m2.out ) for( auto o : p.second ) { sub = sub and w.m.out[p.first].count( o ); sym = sym and m2.in[o].count( p.first ); }
		for( auto &p : m2.in ) for( auto o : p.second ) sym = sym and m2.out[o].count( p.first );
		VF_TRUE( c, "mst:only removes edges", sub and m2.val == w.m.val and w.g.size( ) == w.m.val.size( ) );
		VF_TRUE( c, "mst:edges stay consistent", sym );
		for( auto s : roots ) {
			auto d = distances( m2, s );
			for( auto &p : d ) after.insert( p.first );
			// a tree: every reached node but the root has exactly one parent among the reached nodes
			bool tree = true;
			for( auto &p : d ) {
				size_t par = 0;
				for( auto q : m2.in[p.first] ) par += d.count( q );
				tree = tree and par == ( p.first == s ? 0u : 1u );
			}
			VF_TRUE( c, "mst:what a root reaches is a tree", tree );
		}
		VF_TRUE( c, "mst:still spans everything a root reached", before == after );
		for( auto &p : w.m.out ) if( not before.count( p.first ) ) { VF_TRUE( c, "mst:unreached parts untouched", m2.out[p.first] == p.second ); ++touched; }
		c.nontrivial( vf::mix( before.size( ), roots.size( ) ) );
	}
}
VF_MAIN( )
