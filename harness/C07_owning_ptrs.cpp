// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include "vf.h"
#include "vf_types.h"
#include <daw/daw_unique_ptr.h>
#include <daw/daw_maybe_unique_ptr.h>
#include <daw/daw_unique_array.h>
#include <daw/daw_unique_resource.h>
#include <algorithm>
#include <numeric>
#include <optional>

// Disposal log: every disposal of a resource is one event (id, deleter tag).
struct Ev {
	int id, tag;
	friend bool operator==( Ev const &, Ev const & ) = default;
	friend std::ostream &operator<<( std::ostream &os, Ev const &e ) { return os << e.id << "@" << e.tag; }
};
static std::vector<Ev> *g_log = nullptr;

struct Res {
	int id;
	int payload = 0;
	Res( int i = -7 ) : id( i ) {}
	virtual ~Res( ) {
		if( g_log and id >= 0 )
			g_log->push_back( { id, 0 } );
		id = -99;
	}
};
struct Child : Res {
	int *heap;
	Child( int i ) : Res( i ), heap( new int( i ) ) {}
	~Child( ) override { delete heap; }
};
// stateful deleter: logs its tag
template<typename T>
struct TagDel {
	int tag = 1;
	TagDel( ) {}
	void operator( )( T *p ) const {
		g_log->push_back( { p->id, tag } );
		p->id = -1;
		delete p;
	}
};
template<typename T>
struct TagDelArr {
	int tag = 1;
	TagDelArr( ) {}
	void operator( )( T *p ) const {
		g_log->push_back( { p->id, tag } );
		p->id = -1;
		delete[] p;
	}
};

enum class K { single, array };

template<typename H, K kind, bool maybe, bool tagged, bool children>
struct World {
	using P = Res *;
	vf::Case &c;
	std::vector<Ev> log, want;
	struct M {
		P p = nullptr;
		int id = -1;
		bool owned = true;
		int tag = tagged ? 1 : 0;
	};
	static constexpr size_t N = 4;
	std::vector<H> hs;
	M ms[N];
	std::vector<std::pair<P, int>> borrowed; // objects owned by the harness
	std::vector<std::pair<P, int>> released;
	int next_id = 1;

	World( vf::Case &cc ) : c( cc ) {
		g_log = &log;
		hs.resize( N );
	}
	~World( ) { g_log = nullptr; }
	P fresh( int &id ) {
		id = next_id++;
		if constexpr( kind == K::array ) {
			size_t n = 1 + c.rng.below( 4 );
			P p = new Res[n];
			p[0].id = id;
			return p;
		} else if constexpr( children ) {
			if( c.rng.coin( ) )
				return new Child( id );
			return new Res( id );
		} else
			return new Res( id );
	}
	void destroy_raw( P p ) {
		g_log = nullptr;
		if constexpr( kind == K::array )
			delete[] p;
		else
			delete p;
		g_log = &log;
	}
	// the model's held resource is disposed of
	void dispose( M &m ) {
		if( m.p ) {
			if( m.owned )
				want.push_back( { m.id, m.tag } );
		}
		m.p = nullptr;
		m.id = -1;
		m.owned = true;
	}
	void check( char const *op ) {
		std::string L( op );
		c.require_eq( ( L + ":disposals" ).c_str( ), log, want );
		for( size_t i = 0; i < N; ++i ) {
			c.require_eq( ( L + ":get" ).c_str( ), hs[i].get( ), ms[i].p );
			c.require_eq( ( L + ":bool" ).c_str( ), static_cast<bool>( hs[i] ), ms[i].p != nullptr );
			if( ms[i].p ) {
				c.require_eq( ( L + ":held-id" ).c_str( ), ( *hs[i] ).id, ms[i].id );
				c.require_eq( ( L + ":arrow" ).c_str( ), hs[i].operator->( )->id, ms[i].id );
			}
			if constexpr( tagged )
				{
				c.require_eq( ( L + ":deleter-state" ).c_str( ), hs[i].get_deleter( ).tag, ms[i].tag );
				c.require_eq( ( L + ":deleter-state const" ).c_str( ), std::as_const( hs[i] ).get_deleter( ).tag, ms[i].tag );
				if constexpr( kind == K::single or maybe ) {
					auto &&rv = std::move( hs[i] ).get_deleter( );
					auto &&crv = std::move( std::as_const( hs[i] ) ).get_deleter( );
					c.truth( "get_deleter refers to the deleter held", std::addressof( rv ) == std::addressof( hs[i].get_deleter( ) ) and std::addressof( crv ) == std::addressof( rv ) );
					c.eq( "get_out", *hs[i].get_out( ), ms[i].p );
				}
			}
		}
		size_t a = c.rng.below( N ), b = c.rng.below( N );
		auto *pa = ms[a].p;
		auto *pb = ms[b].p;
		std::less<void const *> lt{ };
		c.eq( "operator==", hs[a] == hs[b], pa == pb );
		c.eq( "operator!=", hs[a] != hs[b], pa != pb );
		c.eq( "operator<", hs[a] < hs[b], lt( pa, pb ) );
		c.eq( "operator>", hs[a] > hs[b], lt( pb, pa ) );
		c.eq( "operator<=", hs[a] <= hs[b], not lt( pb, pa ) );
		c.eq( "operator>=", hs[a] >= hs[b], not lt( pa, pb ) );
	}
	P borrow( int &id ) {
		P p = fresh( id );
		borrowed.push_back( { p, id } );
		return p;
	}
	void step( ) {
		auto &r = c.rng;
		size_t i = r.below( N ), j = r.below( N );
		char const *name = "?";
		auto begin_op = [&]( char const *n ) {
			name = n;
			c.op( n );
			c.count( n );
		};
		switch( r.below( 14 ) ) {
		case 0: {
			begin_op( "reset()" );
			hs[i].reset( );
			dispose( ms[i] );
			break;
		}
		case 1: {
			begin_op( "reset(p)" );
			int id;
			P p = fresh( id );
			hs[i].reset( p );
			dispose( ms[i] );
			ms[i].p = p;
			ms[i].id = id;
			break;
		}
		case 2: case 3: {
			if( maybe ) {
				if constexpr( maybe ) {
					bool own = r.coin( );
					begin_op( own ? "reset(p,owned)" : "reset(p,borrowed)" );
					int id;
					P p = own ? fresh( id ) : borrow( id );
					hs[i].reset( p, own );
					dispose( ms[i] );
					ms[i].p = p;
					ms[i].id = id;
					ms[i].owned = own;
				}
			} else {
				begin_op( "reset(nullptr)" );
				hs[i].reset( nullptr );
				dispose( ms[i] );
			}
			break;
		}
		case 4: case 5: {
			begin_op( i == j ? "self move-assign" : "move-assign" );
			auto &src = hs[j];
			hs[i] = std::move( src );
			if( i != j ) {
				dispose( ms[i] );
				int tag = ms[j].tag;
				ms[i] = ms[j];
				ms[j] = M{ };
				ms[j].tag = tag;
			}
			break;
		}
		case 6: {
			begin_op( "move-construct" );
			H h( std::move( hs[i] ) );
			M m = ms[i];
			int tag = ms[i].tag;
			ms[i] = M{ };
			ms[i].tag = tag;
			c.eq( "move-construct:get", h.get( ), m.p );
			c.eq( "move-construct:source", hs[i].get( ), static_cast<P>( nullptr ) );
			if constexpr( tagged )
				c.eq( "move-construct:deleter", h.get_deleter( ).tag, m.tag );
			if( r.coin( ) ) {
				hs[j] = std::move( h );
				dispose( ms[j] );
				ms[j] = m;
			} else {
				// h disposes at scope end
				dispose( m );
			}
			break;
		}
		case 7: {
			begin_op( i == j ? "self swap" : "swap" );
			if( r.coin( ) )
				hs[i].swap( hs[j] );
			else {
				using std::swap;
				swap( hs[i], hs[j] );
			}
			if( i != j )
				std::swap( ms[i], ms[j] );
			break;
		}
		case 8: {
			begin_op( "release" );
			P p = hs[i].release( );
			c.eq( "release:result", p, ms[i].p );
			if( p and ms[i].owned )
				released.push_back( { p, ms[i].id } );
			ms[i].p = nullptr;
			ms[i].id = -1;
			ms[i].owned = true;
			break;
		}
		case 9: {
			// take a released pointer back
			if( not released.empty( ) ) {
				begin_op( "construct(p)" );
				auto [p, id] = released.back( );
				released.pop_back( );
				H h( p );
				if constexpr( tagged )
					h.get_deleter( ).tag = 40 + static_cast<int>( r.below( 5 ) );
				int tag = 0;
				if constexpr( tagged )
					tag = h.get_deleter( ).tag;
				hs[i] = std::move( h );
				dispose( ms[i] );
				ms[i].p = p;
				ms[i].id = id;
				ms[i].tag = tag;
			}
			break;
		}
		case 10: {
			if constexpr( tagged ) {
				begin_op( "set deleter state" );
				int t = 2 + static_cast<int>( r.below( 30 ) );
				hs[i].get_deleter( ).tag = t;
				ms[i].tag = t;
			}
			break;
		}
		case 11: {
			if constexpr( maybe ) {
				bool own = r.coin( );
				begin_op( "construct(p,owned)" );
				int id;
				P p = own ? fresh( id ) : borrow( id );
				H h( p, own );
				M m;
				m.p = p;
				m.id = id;
				m.owned = own;
				if( r.coin( ) ) {
					dispose( ms[i] );
					hs[i] = std::move( h );
					ms[i] = m;
				} else
					dispose( m );
			}
			break;
		}
		case 12: {
			begin_op( "construct default/nullptr" );
			if( r.coin( ) ) {
				H h{ };
				c.eq( "default:get", h.get( ), static_cast<P>( nullptr ) );
				hs[i] = std::move( h );
			} else {
				H h( nullptr );
				c.eq( "nullptr:get", h.get( ), static_cast<P>( nullptr ) );
				hs[i] = std::move( h );
			}
			dispose( ms[i] );
			ms[i].tag = tagged ? 1 : 0;
			break;
		}
		case 13: {
			begin_op( "monadic" );
			{
				auto const look = [&]( auto const &p ) { return p ? p.operator->( )->id : -5; };
				int const want_id = ms[i].p ? ms[i].id : -5;
				c.eq( "transform const:value", std::as_const( hs[i] ).transform( look ), want_id );
				c.eq( "transform const &&:value", std::move( std::as_const( hs[i] ) ).transform( look ), want_id );
				c.eq( "transform &&:value", std::move( hs[i] ).transform( look ), want_id );
			}
			if constexpr( not tagged ) {
				int sees = -5;
				auto tr = hs[i].transform( [&]( auto const &p ) { return p ? p.operator->( )->id : -5; } );
				c.eq( "transform:value", tr, ms[i].p ? ms[i].id : -5 );
				if( r.coin( ) ) {
					hs[i] = std::move( hs[i] ).and_then( [&]( H p ) {
						sees = p.operator->( )->id;
						return p;
					} );
					c.eq( "and_then:called", sees, ms[i].p ? ms[i].id : -5 );
				} else {
					int id = -1;
					P p = nullptr;
					bool called = false;
					hs[i] = std::move( hs[i] ).or_else( [&] {
						called = true;
						p = fresh( id );
						return H( p );
					} );
					c.eq( "or_else:called", called, ms[i].p == nullptr );
					if( called ) {
						ms[i].p = p;
						ms[i].id = id;
						ms[i].owned = true;
					}
				}
			}
			break;
		}
		}
		check( name );
	}
	void finish( ) {
		for( size_t k = 0; k < N; ++k )
			dispose( ms[k] );
		c.op( "destructors" );
		hs.clear( );
		auto a = log, b = want;
		auto lt = []( Ev const &x, Ev const &y ) { return std::tie( x.id, x.tag ) < std::tie( y.id, y.tag ); };
		std::sort( a.begin( ), a.end( ), lt );
		std::sort( b.begin( ), b.end( ), lt );
		c.eq( "destructors:disposals", a, b );
		for( auto &[p, id] : borrowed ) {
			bool ok = std::none_of( log.begin( ), log.end( ), [&, id = id]( Ev const &e ) { return e.id == id; } );
			c.truth( "borrowed:never-disposed", ok );
			if( ok )
				destroy_raw( p );
		}
		for( auto &[p, id] : released )
			destroy_raw( p );
	}
};

template<typename H, K kind, bool maybe, bool tagged, bool children>
static void history( vf::Case &c ) {
	World<H, kind, maybe, tagged, children> w( c );
	size_t steps = 10 + c.rng.below( 60 );
	c.ctx( "steps=", steps );
	c.nontrivial( c.idx );
	for( size_t i = 0; i < steps; ++i )
		w.step( );
	w.finish( );
}
VF_FAMILY( unique_default, 1500, 60000 ) { history<daw::unique_ptr<Res>, K::single, false, false, true>( c ); }
VF_FAMILY( unique_stateful, 1500, 60000 ) { history<daw::unique_ptr<Res, TagDel<Res>>, K::single, false, true, false>( c ); }
VF_FAMILY( unique_array_default, 1000, 40000 ) { history<daw::unique_ptr<Res[]>, K::array, false, false, false>( c ); }
VF_FAMILY( unique_array_stateful, 1000, 40000 ) { history<daw::unique_ptr<Res[], TagDelArr<Res>>, K::array, false, true, false>( c ); }
VF_FAMILY( maybe_default, 2000, 80000 ) { history<daw::maybe_unique_ptr<Res>, K::single, true, false, true>( c ); }
VF_FAMILY( maybe_stateful, 1500, 60000 ) { history<daw::maybe_unique_ptr<Res, TagDel<Res>>, K::single, true, true, false>( c ); }
VF_FAMILY( maybe_array, 1000, 40000 ) { history<daw::maybe_unique_ptr<Res[]>, K::array, true, false, false>( c ); }

// conversions between handles of a derived and a base class
VF_FAMILY( converting, 1500, 40000 ) {
	std::vector<Ev> log, want;
	g_log = &log;
	auto &r = c.rng;
	{
		daw::unique_ptr<Res> u;
		daw::maybe_unique_ptr<Res> m;
		int uid = -1, mid = -1;
		bool mown = true;
		Child borrowed( -1 );
		Child *bp = &borrowed;
		size_t steps = 2 + r.below( 12 );
		c.ctx( "converting steps=", steps );
		c.nontrivial( c.idx );
		int id = 1;
		auto drop_u = [&] { if( uid >= 0 ) want.push_back( { uid, 0 } ); uid = -1; };
		auto drop_m = [&] { if( mid >= 0 and mown ) want.push_back( { mid, 0 } ); mid = -1; mown = true; };
		for( size_t k = 0; k < steps; ++k ) {
			++id;
			char const *n = "?";
			switch( r.below( 8 ) ) {
			case 0:
				c.op( n = "unique<Base> = unique<Child>" );
				u = daw::make_unique<Child>( id );
				drop_u( );
				uid = id;
				break;
			case 1:
				c.op( n = "maybe<Base> = unique<Child>" );
				m = daw::make_unique<Child>( id );
				drop_m( );
				mid = id;
				break;
			case 2: {
				c.op( n = "maybe<Base> = maybe<Child>" );
				m = daw::make_maybe_unique<Child>( id );
				drop_m( );
				mid = id;
				break;
			}
			case 3: {
				c.op( n = "maybe<Base> = borrowed maybe<Child>" );
				daw::maybe_unique_ptr<Child> mc( bp, false );
				m = std::move( mc );
				drop_m( );
				mown = false;
				c.eq( "borrowed:get", m.get( ), static_cast<Res *>( bp ) );
				break;
			}
			case 4: {
				c.op( n = "maybe<Base>(maybe<Child>)" );
				bool own = r.coin( );
				Child *p = own ? new Child( id ) : bp;
				daw::maybe_unique_ptr<Child> mc( p, own );
				daw::maybe_unique_ptr<Res> mb( std::move( mc ) );
				c.eq( "converted:get", mb.get( ), static_cast<Res *>( p ) );
				c.truth( "converted:source-empty", not mc );
				if( own )
					want.push_back( { id, 0 } );
				break;
			}
			case 5: {
				c.op( n = "maybe<Base>(unique<Child>)" );
				auto uc = daw::make_unique<Child>( id );
				daw::maybe_unique_ptr<Res> mb( std::move( uc ) );
				c.eq( "converted:id", mb->id, id );
				want.push_back( { id, 0 } );
				break;
			}
			case 6: {
				c.op( n = "maybe<Base>(Child*,owned)" );
				bool own = r.coin( );
				Child *p = own ? new Child( id ) : bp;
				daw::maybe_unique_ptr<Res> mb( p, own );
				if( own )
					want.push_back( { id, 0 } );
				if( r.coin( ) ) {
					(void)mb.release( );
					if( own ) {
						delete p;
					}
				}
				break;
			}
			case 7: {
				c.op( n = "unique<Base>(unique<Child>)" );
				auto uc = daw::make_unique<Child>( id );
				daw::unique_ptr<Res> ub( std::move( uc ) );
				c.truth( "converted:source-empty", not uc );
				u.swap( ub );
				std::swap( uid, id );
				if( id >= 0 )
					want.push_back( { id, 0 } );
				id = std::max( id, uid );
				break;
			}
			}
			VF_REQ( c, ( std::string( n ) + ":disposals" ).c_str( ), log, want );
		}
		drop_u( );
		drop_m( );
		g_log = &log;
		u.reset( );
		m.reset( );
		std::sort( log.begin( ), log.end( ), []( Ev a, Ev b ) { return a.id < b.id; } );
		std::sort( want.begin( ), want.end( ), []( Ev a, Ev b ) { return a.id < b.id; } );
		VF_EQ( c, "converting:end", log, want );
	}
	g_log = nullptr;
}

// a deleter travels with the resource it was given for
struct BaseDel {
	int tag = 1;
	void operator( )( Res *p ) const {
		g_log->push_back( { p->id, tag } );
		p->id = -1;
		delete p;
	}
};
VF_FAMILY( converting_stateful, 1000, 30000 ) {
	std::vector<Ev> log, want;
	g_log = &log;
	auto &r = c.rng;
	{
		using UB = daw::unique_ptr<Res, BaseDel>;
		using UC = daw::unique_ptr<Child, BaseDel>;
		using MB = daw::maybe_unique_ptr<Res, BaseDel>;
		using MC = daw::maybe_unique_ptr<Child, BaseDel>;
		UB u;
		MB m;
		Ev ue{ -1, 0 }, me{ -1, 0 };
		auto drop = [&]( Ev &e ) {
			if( e.id >= 0 ) want.push_back( e );
			e.id = -1;
		};
		size_t const steps = 2 + r.below( 14 );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			int const id = static_cast<int>( k ) + 1, tag = 2 + static_cast<int>( r.below( 50 ) );
			switch( r.below( 8 ) ) {
			case 0: {
				c.op( "unique<Base,D> = unique<Child,D>" );
				UC x( new Child( id ) );
				x.get_deleter( ).tag = tag;
				u = std::move( x );
				VF_TRUE( c, "stateful:source-empty", not x );
				drop( ue );
				ue = { id, tag };
				break;
			}
			case 1: {
				c.op( "unique<Base,D>(unique<Child,D>)" );
				UC x( new Child( id ) );
				x.get_deleter( ).tag = tag;
				{ UB b( std::move( x ) ); VF_EQ( c, "stateful:constructed", b.get_deleter( ).tag, tag ); }
				want.push_back( { id, tag } );
				break;
			}
			case 2: {
				c.op( "maybe<Base,D> = unique<Child,D>" );
				UC x( new Child( id ) );
				x.get_deleter( ).tag = tag;
				m = std::move( x );
				drop( me );
				me = { id, tag };
				break;
			}
			case 3: {
				c.op( "maybe<Base,D> = maybe<Child,D>" );
				MC x( new Child( id ) );
				x.get_deleter( ).tag = tag;
				m = std::move( x );
				VF_TRUE( c, "stateful:source-empty", not x );
				drop( me );
				me = { id, tag };
				break;
			}
			case 4: {
				c.op( "maybe(pointer,D)" );
				m = MB( new Res( id ), BaseDel{ tag } );
				drop( me );
				me = { id, tag };
				break;
			}
			case 5: {
				c.op( "maybe(pointer,D,owned)" );
				Res borrowed( -3 );
				BaseDel const d{ tag };
				if( r.coin( ) ) {
					m = MB( new Res( id ), d, true );
					drop( me );
					me = { id, tag };
				} else {
					MB x( &borrowed, d, false );
					VF_EQ( c, "stateful:borrowed", x->id, -3 );
				}
				
				break;
			}
			case 6: c.op( "unique reset" ); u.reset( ); drop( ue ); break;
			default: c.op( "maybe reset" ); m.reset( ); drop( me ); break;
			}
			
			if( ue.id >= 0 ) {
				VF_REQ( c, "stateful:held by unique", u->id, ue.id );
				VF_EQ( c, "stateful:deleter of unique", u.get_deleter( ).tag, ue.tag );
			} else VF_TRUE( c, "stateful:unique empty", not u );
			if( me.id >= 0 ) {
				VF_REQ( c, "stateful:held by maybe", m->id, me.id );
				VF_EQ( c, "stateful:deleter of maybe", m.get_deleter( ).tag, me.tag );
			} else VF_TRUE( c, "stateful:maybe empty", not m );
		}
		drop( ue );
		drop( me );
		u.reset( );
		m.reset( );
	}
	auto const lt = []( Ev a, Ev b ) { return a.id < b.id; };
	std::sort( log.begin( ), log.end( ), lt );
	std::sort( want.begin( ), want.end( ), lt );
	VF_EQ( c, "stateful:disposals", log, want );
	g_log = nullptr;
}

// Deleter with its own handle type and validity check
static std::vector<int> *g_closed = nullptr;
struct FdDel {
	using pointer = int;
	using does_validity_check = void;
	static constexpr int default_pointer_value = -1;
	void operator( )( int fd ) const {
		if( fd != -1 )
			g_closed->push_back( fd );
	}
};
VF_FAMILY( handle_type, 800, 20000 ) {
	std::vector<int> closed, want;
	g_closed = &closed;
	auto &r = c.rng;
	{
		using H = daw::unique_ptr<int, FdDel>;
		std::vector<H> hs( 3 );
		int ms[3] = { -1, -1, -1 };
		int next = 0; // 0 is a valid handle
		auto drop = [&]( int &m ) { if( m != -1 ) want.push_back( m ); m = -1; };
		size_t steps = 3 + r.below( 20 );
		c.ctx( "handles steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( 3 ), j = r.below( 3 );
			char const *n = "?";
			switch( r.below( 5 ) ) {
			case 0:
				c.op( n = "handle:reset" );
				hs[i].reset( );
				drop( ms[i] );
				break;
			case 1:
				c.op( n = "handle:reset(h)" );
				hs[i].reset( next );
				drop( ms[i] );
				ms[i] = next++;
				break;
			case 2:
				c.op( n = "handle:move" );
				hs[i] = std::move( hs[j] );
				if( i != j ) {
					drop( ms[i] );
					ms[i] = ms[j];
					ms[j] = -1;
				}
				break;
			case 3:
				c.op( n = "handle:swap" );
				hs[i].swap( hs[j] );
				std::swap( ms[i], ms[j] );
				break;
			case 4:
				c.op( n = "handle:release" );
				VF_EQ( c, "handle:release", hs[i].release( ), ms[i] );
				ms[i] = -1;
				break;
			}
			VF_REQ( c, ( std::string( n ) + ":closed" ).c_str( ), closed, want );
			for( size_t q = 0; q < 3; ++q )
				VF_REQ( c, ( std::string( n ) + ":get" ).c_str( ), hs[q].get( ), ms[q] );
		}
		for( auto &m : ms )
			drop( m );
	}
	std::sort( closed.begin( ), closed.end( ) );
	std::sort( want.begin( ), want.end( ) );
	VF_EQ( c, "handle:end", closed, want );
	g_closed = nullptr;
}

VF_FAMILY( factories, 600, 10000 ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	int x = r.edgy<int>( );
	size_t n = r.below( 12 );
	c.ctx( "x=", x, " n=", n );
	c.nontrivial( vf::mix( static_cast<uint64_t>( x ), n ) );
	{
		auto a = daw::make_unique<vf::Tracked>( x );
		VF_EQ( c, "make_unique", a->get( ), x );
		auto b = daw::make_maybe_unique<vf::Tracked>( x );
		VF_EQ( c, "make_maybe_unique", b->get( ), x );
		auto d = daw::make_unique<vf::Tracked[]>( n );
		auto e = daw::make_maybe_unique<vf::Tracked[]>( n );
		for( size_t i = 0; i < n; ++i ) {
			VF_EQ( c, "make_unique[]:value", d[i].get( ), 0 );
			VF_EQ( c, "make_maybe_unique[]:value", e[i].get( ), 0 );
			d[i] = vf::Tracked( static_cast<int>( i ) );
		}
		for( size_t i = 0; i < n; ++i )
			VF_EQ( c, "unique_ptr[]:index", d[i].get( ), static_cast<int>( i ) );
		auto f = daw::make_unique_array<vf::Tracked[]>( x, 2, 3 );
		auto g = daw::make_maybe_unique_array<vf::Tracked[]>( x, 2, 3 );
		VF_TRUE( c, "make_unique_array", f[0].get( ) == x and f[1].get( ) == 2 and f[2].get( ) == 3 );
		VF_TRUE( c, "make_maybe_unique_array", g[0].get( ) == x and g[1].get( ) == 2 and g[2].get( ) == 3 );
		struct Agg {
			int a;
			int b;
		};
		auto h = daw::make_unique<Agg>( x, 4 );
		VF_TRUE( c, "make_unique(aggregate)", h->a == x and h->b == 4 );
		auto ow = daw::make_unique_for_overwrite<vf::Tracked>( );
		VF_EQ( c, "make_unique_for_overwrite", ow->get( ), 0 );
		led.l.throw_at = 0;
		bool th = false;
		try {
			auto t = daw::make_unique<vf::Tracked>( 3 );
		} catch( vf::injected const & ) {
			th = true;
		}
		led.l.throw_at = -1;
		VF_TRUE( c, "make_unique:throws", th );
	}
	led.check_empty( c, "factories" );
}

VF_FAMILY( unique_array_t, 1200, 40000 ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	{
		using A = daw::unique_array_t<vf::Tracked>;
		std::vector<A> as( 3 );
		std::vector<std::vector<int>> ms( 3 );
		size_t steps = 3 + r.below( 25 );
		c.ctx( "unique_array steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( 3 ), j = r.below( 3 );
			char const *n = "?";
			switch( r.below( 6 ) ) {
			case 5: {
				c.op( n = "unique_array:move-construct" );
				A t( std::move( as[i] ) );
				VF_REQ( c, "unique_array:moved-from:size", as[i].size( ), size_t{ 0 } );
				VF_REQ( c, "unique_array:moved-from:empty", as[i].empty( ), true );
				VF_REQ( c, "unique_array:moved-to:size", t.size( ), ms[i].size( ) );
				if( r.coin( ) )
					ms[i].clear( ); // the elements go away with t
				else if( r.coin( ) ) {
					as[j] = std::move( t );
					auto tmp = std::move( ms[i] );
					ms[i].clear( );
					ms[j] = std::move( tmp );
				} else
					as[i] = std::move( t );
				break;
			}
			case 0: {
				c.op( n = "unique_array(n)" );
				size_t sz = r.below( 9 );
				as[i] = A( sz );
				ms[i].assign( sz, 0 );
				break;
			}
			case 1: {
				c.op( n = "unique_array(n,value)" );
				size_t sz = r.below( 9 );
				int x = static_cast<int>( r.below( 100 ) );
				as[i] = A( sz, x );
				ms[i].assign( sz, x );
				break;
			}
			case 2:
				c.op( n = "unique_array:move-assign" );
				as[i] = std::move( as[j] );
				if( i != j ) {
					ms[i] = ms[j];
					ms[j].clear( );
				}
				break;
			case 3: {
				c.op( n = "unique_array:swap" );
				std::swap( as[i], as[j] );
				std::swap( ms[i], ms[j] );
				break;
			}
			case 4:
				if( not ms[i].empty( ) ) {
					c.op( n = "unique_array:write" );
					size_t p = r.below( ms[i].size( ) );
					int x = static_cast<int>( r.below( 100 ) );
					if( r.coin( ) )
						as[i][p] = vf::Tracked( x );
					else
						as[i].at( p ) = vf::Tracked( x );
					ms[i][p] = x;
				}
				break;
			}
			for( size_t q = 0; q < 3; ++q ) {
				auto const &a = as[q];
				auto const &m = ms[q];
				VF_REQ( c, ( std::string( n ) + ":size" ).c_str( ), a.size( ), m.size( ) );
				VF_REQ( c, ( std::string( n ) + ":capacity" ).c_str( ), a.capacity( ), m.size( ) );
				VF_REQ( c, ( std::string( n ) + ":empty" ).c_str( ), a.empty( ), m.empty( ) );
				std::vector<int> got;
				for( auto const &x : a )
					got.push_back( x.get( ) );
				VF_REQ( c, ( std::string( n ) + ":contents" ).c_str( ), got, m );
				VF_EQ( c, "unique_array:cend-cbegin", static_cast<size_t>( a.cend( ) - a.cbegin( ) ), m.size( ) );
				if( not m.empty( ) ) {
					VF_EQ( c, "unique_array:front", a.front( ).get( ), m.front( ) );
					VF_EQ( c, "unique_array:back", a.back( ).get( ), m.back( ) );
					VF_EQ( c, "unique_array:back(mut)", as[q].back( ).get( ), m.back( ) );
					VF_EQ( c, "unique_array:front(mut)", as[q].front( ).get( ), m.front( ) );
					VF_EQ( c, "unique_array:[] const", a[m.size( ) - 1].get( ), m.back( ) );
					VF_TRUE( c, "unique_array:end(mut)", as[q].end( ) == as[q].begin( ) + m.size( ) and as[q].begin( ) == a.begin( ) );
					size_t p = r.below( m.size( ) );
					VF_EQ( c, "unique_array:at", a.at( p ).get( ), m[p] );
					VF_EQ( c, "unique_array:at(mut)", as[q].at( p ).get( ), m[p] );
				}
				int th = 0;
				try {
					(void)a.at( m.size( ) + r.below( 3 ) );
				} catch( std::out_of_range const & ) {
					++th;
				}
				try {
					(void)as[q].at( m.size( ) + r.below( 3 ) );
				} catch( std::out_of_range const & ) {
					++th;
				}
				VF_EQ( c, "unique_array:at-out-of-range", th, 2 );
			}
			size_t tot = ms[0].size( ) + ms[1].size( ) + ms[2].size( );
			VF_REQ( c, ( std::string( n ) + ":live-elements" ).c_str( ), led.l.live.size( ), tot );
		}
	}
	led.check_empty( c, "unique_array" );
}

struct ResDel {
	void operator( )( int &v ) const { g_closed->push_back( v ); }
};
VF_FAMILY( unique_resource, 1500, 40000 ) {
	std::vector<int> closed, want;
	g_closed = &closed;
	auto &r = c.rng;
	{
		using H = daw::unique_resource<int, ResDel>;
		std::vector<H> hs;
		std::vector<std::optional<int>> ms;
		for( int i = 0; i < 3; ++i ) {
			hs.emplace_back( );
			ms.emplace_back( );
		}
		int next = 1;
		auto drop = [&]( std::optional<int> &m ) { if( m ) want.push_back( *m ); m.reset( ); };
		size_t steps = 3 + r.below( 25 );
		c.ctx( "unique_resource steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( 3 ), j = r.below( 3 );
			char const *n = "?";
			switch( r.below( 7 ) ) {
			case 0:
				c.op( n = "unique_resource:reset" );
				hs[i].reset( );
				drop( ms[i] );
				break;
			case 1:
				c.op( n = "unique_resource:reset(v)" );
				hs[i].reset( next );
				drop( ms[i] );
				ms[i] = next++;
				break;
			case 2:
				c.op( n = i == j ? "unique_resource:self-move" : "unique_resource:move" );
				hs[i] = std::move( hs[j] );
				if( i != j ) {
					drop( ms[i] );
					ms[i] = ms[j];
					ms[j].reset( );
				}
				break;
			case 3: {
				c.op( n = "unique_resource:construct+move" );
				H h( next );
				ms[j].has_value( );
				H h2( std::move( h ) );
				VF_EQ( c, "unique_resource:moved-value", *h2, next );
				hs[i] = std::move( h2 );
				drop( ms[i] );
				ms[i] = next++;
				break;
			}
			case 4:
				if( ms[i] ) {
					c.op( n = "unique_resource:release" );
					VF_EQ( c, "unique_resource:release", hs[i].release( ), *ms[i] );
					ms[i].reset( );
				}
				break;
			case 5:
				c.op( n = "unique_resource:emplace" );
				VF_EQ( c, "unique_resource:emplace", hs[i].emplace( next ), next );
				drop( ms[i] );
				ms[i] = next++;
				break;
			case 6: {
				c.op( n = "unique_resource:swap" );
				std::swap( hs[i], hs[j] );
				std::swap( ms[i], ms[j] );
				break;
			}
			}
			VF_REQ( c, ( std::string( n ) + ":disposals" ).c_str( ), closed, want );
			for( size_t q = 0; q < 3; ++q )
				if( ms[q] ) {
					VF_REQ( c, ( std::string( n ) + ":get" ).c_str( ), hs[q].get( ), *ms[q] );
					VF_EQ( c, "unique_resource:const-deref", *std::as_const( hs[q] ), *ms[q] );
				}
		}
		for( auto &m : ms )
			drop( m );
	}
	std::sort( closed.begin( ), closed.end( ) );
	std::sort( want.begin( ), want.end( ) );
	VF_EQ( c, "unique_resource:end", closed, want );
	g_closed = nullptr;
}

// lists of owning pointers: advancing the head takes it out of the node it disposes of
static int g_nodes = 0;
template<template<class> class H>
struct LNode {
	int id;
	int *heap;
	H<LNode> next;
	LNode( int i ) : id( i ), heap( new int( i ) ) { ++g_nodes; }
	LNode( LNode const & ) = delete;
	~LNode( ) noexcept {
		--g_nodes;
		delete heap;
	}
};
template<class T>
using UP = daw::unique_ptr<T>;
template<class T>
using MUP = daw::maybe_unique_ptr<T>;
template<class H, class N>
static void chain( vf::Case &c ) {
	auto &r = c.rng;
	size_t n = 1 + r.below( 20 );
	c.ctx( "chain n=", n );
	c.nontrivial( c.idx );
	g_nodes = 0;
	{
		H head;
		std::vector<int> m;
		for( size_t i = 0; i < n; ++i ) {
			c.op( "chain:push" );
			H t( new N( static_cast<int>( i ) ) );
			t->next = std::move( head );
			head = std::move( t );
			m.insert( m.begin( ), static_cast<int>( i ) );
		}
		while( head ) {
			std::vector<int> got;
			for( N const *p = head.get( ); p; p = p->next.get( ) )
				got.push_back( *p->heap );
			c.require_eq( "chain:contents", got, m );
			c.require_eq( "chain:live", g_nodes, static_cast<int>( m.size( ) ) );
			if( r.chance( 1, 10 ) )
				break;
			c.op( "chain:head = move(head->next)" );
			head = std::move( head->next );
			m.erase( m.begin( ) );
			c.require_eq( "chain:popped", g_nodes, static_cast<int>( m.size( ) ) );
		}
	}
	c.eq( "chain:end", g_nodes, 0 );
}
VF_FAMILY( chain_unique, 300, 5000 ) { chain<UP<LNode<UP>>, LNode<UP>>( c ); }
VF_FAMILY( chain_maybe, 300, 5000 ) { chain<MUP<LNode<MUP>>, LNode<MUP>>( c ); }

VF_MAIN( )
