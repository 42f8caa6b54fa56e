// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include "vf.h"
#include "vf_types.h"
#include <daw/daw_ref_counted_pointer.h>
#include <map>
#include <set>

static std::vector<int> *g_dead = nullptr;
struct Node;
using RC = daw::rc_ptr<Node>;
struct Node {
	int id;
	RC next;
	int *heap;
	Node( int i ) : id( i ), heap( new int( i ) ) {}
	~Node( ) noexcept {
		g_dead->push_back( id );
		delete heap;
		id = -99;
	}
};

// handles (variables) and next-links form one reference graph; the model keeps
// for every object the number of handles referring to it
struct Model {
	std::map<int, int> count; // id -> refs
	std::map<int, int> next;  // id -> next id or -1
	std::vector<int> dead;
	void ref( int id ) {
		if( id >= 0 )
			++count[id];
	}
	void unref( int id ) {
		while( id >= 0 ) {
			if( --count[id] != 0 )
				return;
			dead.push_back( id );
			int n = next[id];
			count.erase( id );
			next.erase( id );
			id = n;
		}
	}
};

VF_FAMILY( shared_nodes, 3000, 100000 ) {
	std::vector<int> dead;
	g_dead = &dead;
	auto &r = c.rng;
	constexpr size_t N = 5;
	size_t steps = 5 + r.below( 60 );
	c.ctx( "shared_nodes steps=", steps );
	c.nontrivial( c.idx );
	Model m;
	{
		std::vector<RC> hs( N );
		std::vector<int> ms( N, -1 );
		int next_id = 0;
		auto set = [&]( int &slot, int id ) {
			m.ref( id );
			int old = slot;
			slot = id;
			m.unref( old );
		};
		auto newnode = [&]( int id ) {
			m.next[id] = -1;
			return id;
		};
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			char const *n = "?";
			switch( r.below( 13 ) ) {
			case 0: {
				c.op( n = "rc:construct" );
				int id = newnode( next_id++ );
				hs[i] = RC( new Node( id ) );
				set( ms[i], id );
				break;
			}
			case 1: {
				c.op( n = "rc:make_rc_ptr" );
				int id = newnode( next_id++ );
				hs[i] = daw::make_rc_ptr<Node>( id );
				set( ms[i], id );
				break;
			}
			case 2: case 3:
				c.op( n = i == j ? "rc:self copy-assign" : "rc:copy-assign" );
				hs[i] = static_cast<RC const &>( hs[j] );
				set( ms[i], ms[j] );
				break;
			case 4: {
				c.op( n = i == j ? "rc:self move-assign" : "rc:move-assign" );
				auto &src = hs[j];
				hs[i] = std::move( src );
				if( i != j ) {
					int id = ms[j];
					ms[j] = -1;
					int old = ms[i];
					ms[i] = id;
					m.unref( old );
				}
				break;
			}
			case 5:
				c.op( n = "rc:swap" );
				if( r.coin( ) )
					hs[i].swap( hs[j] );
				else
					swap( hs[i], hs[j] );
				std::swap( ms[i], ms[j] );
				break;
			case 6: case 7:
				c.op( n = "rc:reset" );
				hs[i].reset( );
				set( ms[i], -1 );
				break;
			case 8: {
				c.op( n = "rc:copy-construct" );
				RC t( hs[i] );
				c.eq( "rc:copy-construct:get", t.get( ), hs[i].get( ) );
				if( ms[i] >= 0 )
					c.eq( "rc:copy-construct:count", t.ref_count( ), static_cast<size_t>( m.count[ms[i]] + 1 ) );
				break;
			}
			case 9: {
				c.op( n = "rc:move-construct" );
				RC t( std::move( hs[i] ) );
				c.truth( "rc:move-construct:source", not hs[i] );
				hs[j] = std::move( t );
				int id = ms[i];
				ms[i] = -1;
				int old = ms[j];
				ms[j] = id;
				m.unref( old );
				break;
			}
			case 10: {
				// link nodes: only from older to newer objects (no cycles)
				if( ms[i] >= 0 and ms[j] > ms[i] ) {
					c.op( n = "rc:link" );
					hs[i]->next = hs[j];
					set( m.next[ms[i]], ms[j] );
				}
				break;
			}
			case 11: {
				// advance a handle along its list: the source lives inside the
				// object the handle may be the last owner of
				if( ms[i] >= 0 ) {
					c.op( n = "rc:h = h->next" );
					hs[i] = static_cast<RC const &>( hs[i]->next );
					set( ms[i], m.next[ms[i]] );
				}
				break;
			}
			case 12: {
				if( ms[i] >= 0 ) {
					c.op( n = "rc:h = move(h->next)" );
					int nx = m.next[ms[i]];
					hs[i] = std::move( hs[i]->next );
					m.next[ms[i]] = -1;
					int old = ms[i];
					ms[i] = nx;
					m.unref( old );
				}
				break;
			}
			}
			c.count( n );
			c.require_eq( ( std::string( n ) + ":destroyed" ).c_str( ), dead, m.dead );
			for( size_t q = 0; q < N; ++q ) {
				c.require_eq( ( std::string( n ) + ":bool" ).c_str( ), static_cast<bool>( hs[q] ), ms[q] >= 0 );
				c.eq( "rc:== nullptr", hs[q] == nullptr, ms[q] < 0 );
				c.eq( "rc:!= nullptr", hs[q] != nullptr, ms[q] >= 0 );
				c.eq( "rc:> nullptr", hs[q] > nullptr, ms[q] >= 0 );
				c.eq( "rc:<= nullptr", hs[q] <= nullptr, ms[q] < 0 );
				c.eq( "rc:>= nullptr", hs[q] >= nullptr, true );
				c.eq( "rc:< nullptr", hs[q] < nullptr, false );
				if( ms[q] >= 0 ) {
					c.require_eq( ( std::string( n ) + ":held" ).c_str( ), ( *hs[q] ).id, ms[q] );
					c.require_eq( ( std::string( n ) + ":arrow" ).c_str( ), hs[q]->id, ms[q] );
					c.require_eq( ( std::string( n ) + ":ref_count" ).c_str( ), std::as_const( hs[q] ).ref_count( ), static_cast<size_t>( m.count[ms[q]] ) );
				} else
					c.require_eq( ( std::string( n ) + ":get-null" ).c_str( ), hs[q].get( ), static_cast<Node *>( nullptr ) );
			}
			auto const *pa = hs[i].get( );
			auto const *pb = hs[j].get( );
			std::less<void const *> lt{ };
			c.eq( "rc:==", hs[i] == hs[j], pa == pb );
			c.eq( "rc:!=", hs[i] != hs[j], pa != pb );
			c.eq( "rc:<", hs[i] < hs[j], lt( pa, pb ) );
			c.eq( "rc:<=", hs[i] <= hs[j], not lt( pb, pa ) );
			c.eq( "rc:>", hs[i] > hs[j], lt( pb, pa ) );
			c.eq( "rc:>=", hs[i] >= hs[j], not lt( pa, pb ) );
			c.count( "live-objects-observed", m.count.size( ) );
		}
		c.op( "rc:destructors" );
		for( auto &x : ms ) {
			int id = x;
			x = -1;
			m.unref( id );
		}
	}
	std::multiset<int> a( dead.begin( ), dead.end( ) ), b( m.dead.begin( ), m.dead.end( ) );
	c.eq( "rc:end", std::vector<int>( a.begin( ), a.end( ) ), std::vector<int>( b.begin( ), b.end( ) ) );
	c.eq( "rc:model-empty", m.count.size( ), size_t{ 0 } );
	g_dead = nullptr;
}

VF_FAMILY( arrays, 2000, 60000 ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	{
		using A = daw::rc_ptr<vf::Tracked[]>;
		constexpr size_t N = 4;
		std::vector<A> hs( N );
		std::vector<int> ms( N, -1 );
		std::map<int, std::pair<int, std::vector<int>>> blocks; // id -> (count, values)
		int next_id = 0;
		auto unref = [&]( int &s ) {
			if( s >= 0 and --blocks[s].first == 0 )
				blocks.erase( s );
			s = -1;
		};
		size_t steps = 4 + r.below( 40 );
		c.ctx( "arrays steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			char const *n = "?";
			switch( r.below( 8 ) ) {
			case 7: {
				c.op( n = "rc[]:move-construct" );
				A t( std::move( hs[i] ) );
				c.require_eq( "rc[]:moved-from", static_cast<bool>( hs[i] ), false );
				A u( hs[i] ); // a copy of an empty handle is empty
				c.require_eq( "rc[]:copy of moved-from", static_cast<bool>( u ), false );
				if( ms[i] >= 0 )
					c.require_eq( "rc[]:moved-to:count", t.ref_count( ), static_cast<size_t>( blocks[ms[i]].first ) );
				if( r.coin( ) )
					unref( ms[i] );
				else
					hs[i] = std::move( t );
				break;
			}
			case 0: {
				c.op( n = "rc[]:make" );
				size_t sz = r.below( 5 );
				hs[i] = r.coin( ) ? daw::make_rc_ptr<vf::Tracked[]>( sz )
				                  : daw::make_rc_ptr_for_overwrite<vf::Tracked[]>( sz );
				unref( ms[i] );
				ms[i] = next_id++;
				blocks[ms[i]] = { 1, std::vector<int>( sz, 0 ) };
				break;
			}
			case 1:
				c.op( n = "rc[]:copy-assign" );
				hs[i] = static_cast<A const &>( hs[j] );
				if( i != j ) {
					int id = ms[j];
					if( id >= 0 )
						++blocks[id].first;
					unref( ms[i] );
					ms[i] = id;
				}
				break;
			case 2: {
				c.op( n = "rc[]:move-assign" );
				auto &src = hs[j];
				hs[i] = std::move( src );
				if( i != j ) {
					unref( ms[i] );
					std::swap( ms[i], ms[j] );
				}
				break;
			}
			case 3:
				c.op( n = "rc[]:reset" );
				hs[i].reset( );
				unref( ms[i] );
				break;
			case 4:
				c.op( n = "rc[]:swap" );
				if( r.coin( ) )
					hs[i].swap( hs[j] );
				else
					swap( hs[i], hs[j] );
				std::swap( ms[i], ms[j] );
				break;
			case 5:
				if( ms[i] >= 0 and not blocks[ms[i]].second.empty( ) ) {
					c.op( n = "rc[]:write" );
					auto &v = blocks[ms[i]].second;
					size_t p = r.below( v.size( ) );
					v[p] = static_cast<int>( r.below( 1000 ) );
					hs[i][p] = vf::Tracked( v[p] );
				}
				break;
			case 6: {
				c.op( n = "rc[]:copy-construct" );
				A t( hs[i] );
				A u( std::move( t ) );
				c.eq( "rc[]:copy:get", u.get( ), hs[i].get( ) );
				if( ms[i] >= 0 )
					c.eq( "rc[]:copy:count", u.ref_count( ), static_cast<size_t>( blocks[ms[i]].first + 1 ) );
				break;
			}
			}
			size_t live = 0;
			for( auto &b : blocks )
				live += b.second.second.size( );
			c.require_eq( ( std::string( n ) + ":live-elements" ).c_str( ), led.l.live.size( ), live );
			for( size_t q = 0; q < N; ++q ) {
				c.require_eq( ( std::string( n ) + ":bool" ).c_str( ), static_cast<bool>( hs[q] ), ms[q] >= 0 );
				if( ms[q] >= 0 ) {
					auto &b = blocks[ms[q]];
					c.require_eq( ( std::string( n ) + ":count" ).c_str( ), hs[q].ref_count( ), static_cast<size_t>( b.first ) );
					for( size_t z = 0; z < b.second.size( ); ++z )
						c.require_eq( ( std::string( n ) + ":element" ).c_str( ), hs[q][z].get( ), b.second[z] );
				}
				auto const &ch = hs[q];
				c.eq( "rc[]:== nullptr", ch == nullptr, ms[q] < 0 );
				c.eq( "rc[]:!= nullptr", ch != nullptr, ms[q] >= 0 );
				c.eq( "rc[]:> nullptr", ch > nullptr, ms[q] >= 0 );
				c.eq( "rc[]:<= nullptr", ch <= nullptr, ms[q] < 0 );
				c.eq( "rc[]:>= nullptr", ch >= nullptr, true );
				c.eq( "rc[]:< nullptr", ch < nullptr, false );
				if( ms[q] >= 0 and not blocks[ms[q]].second.empty( ) ) {
					c.eq( "rc[]:*", ( *ch ).get( ), blocks[ms[q]].second.front( ) );
					c.eq( "rc[]:->", ch->get( ), blocks[ms[q]].second.front( ) );
				}
				c.truth( "rc[]:get_deleter", std::addressof( ch.get_deleter( ) ) == std::addressof( hs[q].get_deleter( ) ) );
				for( size_t z = 0; z < N; ++z ) {
					std::less<void const *> lt{ };
					auto const *pa = ch.get( );
					auto const *pb = hs[z].get( );
					c.eq( "rc[]:==", ch == hs[z], pa == pb );
					c.eq( "rc[]:!=", ch != hs[z], pa != pb );
					c.eq( "rc[]:<", ch < hs[z], lt( pa, pb ) );
					c.eq( "rc[]:<=", ch <= hs[z], not lt( pb, pa ) );
					c.eq( "rc[]:>", ch > hs[z], lt( pb, pa ) );
					c.eq( "rc[]:>=", ch >= hs[z], not lt( pa, pb ) );
				}
			}
		}
	}
	led.check_empty( c, "rc[]:end" );
}

// custom deleter is what disposes of the object
static int g_del_calls = 0;
struct CountDel {
	void operator( )( int *p ) const {
		++g_del_calls;
		delete p;
	}
};
VF_FAMILY( custom_deleter, 500, 5000 ) {
	g_del_calls = 0;
	int made = 0;
	{
		std::vector<daw::rc_ptr<int, CountDel>> hs( 3 );
		size_t steps = 2 + c.rng.below( 20 );
		c.ctx( "steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = c.rng.below( 3 ), j = c.rng.below( 3 );
			switch( c.rng.below( 3 ) ) {
			case 0:
				++made;
				hs[i] = daw::rc_ptr<int, CountDel>( new int( made ) );
				break;
			case 1: hs[i] = static_cast<daw::rc_ptr<int, CountDel> const &>( hs[j] ); break;
			case 2: hs[i].reset( ); break;
			}
			std::set<int *> held;
			for( auto &h : hs )
				if( h )
					held.insert( h.get( ) );
			c.require_eq( "custom_deleter:calls", g_del_calls, made - static_cast<int>( held.size( ) ) );
		}
	}
	c.eq( "custom_deleter:end", g_del_calls, made );
	daw::rc_ptr<int> n( static_cast<int *>( nullptr ) );
	c.truth( "null:empty", not n );
}

// very many handles to one object
VF_FAMILY( many_handles, 6, 60 ) {
	g_del_calls = 0;
	size_t n = c.idx % 3 == 0 ? 70000 : 200 + c.rng.below( 40000 );
	c.ctx( "many_handles n=", n );
	c.nontrivial( n );
	{
		std::vector<daw::rc_ptr<int, CountDel>> hs;
		hs.reserve( n );
		hs.emplace_back( new int( 5 ) );
		while( hs.size( ) < n ) {
			hs.push_back( hs[c.rng.below( hs.size( ) )] );
			c.require_eq( "many:count", hs.front( ).ref_count( ), hs.size( ) );
		}
		while( hs.size( ) > 1 ) {
			hs.pop_back( );
			c.require_eq( "many:count-down", hs.front( ).ref_count( ), hs.size( ) );
			c.require_eq( "many:alive", g_del_calls, 0 );
		}
	}
	c.eq( "many:end", g_del_calls, 1 );
	std::vector<daw::rc_ptr<int[]>> as( 1, daw::make_rc_ptr<int[]>( 3 ) );
	while( as.size( ) < n )
		as.push_back( as.back( ) );
	c.eq( "many[]:count", as.front( ).ref_count( ), n );
	as.resize( 1 );
	c.eq( "many[]:count-down", as.front( ).ref_count( ), size_t{ 1 } );
	as.front( )[2] = 7;
	c.eq( "many[]:alive", as.front( )[2], 7 );
}
VF_MAIN( )
