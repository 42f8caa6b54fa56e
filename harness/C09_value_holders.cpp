// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include "vf.h"
#include "vf_types.h"
#include <optional>
#include <daw/daw_value_ptr.h>
#include <daw/daw_poly_value.h>
#include <daw/daw_poly_var.h>
#include <daw/daw_sbo.h>
#include <daw/deprecated/daw_heap_value.h>
using vf::Tracked;
using OI = std::optional<int>;

static int cmp3( OI const &a, OI const &b ) {
	return a < b ? -1 : ( b < a ? 1 : 0 );
}

// ---- value_ptr ---------------------------------------------------------
VF_FAMILY( value_ptr, 4000, 120000 ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	{
		using V = daw::value_ptr<Tracked>;
		constexpr size_t N = 4;
		std::vector<V> vs;
		std::vector<OI> ms( N );
		for( size_t i = 0; i < N; ++i )
			vs.push_back( V( std::nullopt ) );
		size_t steps = 3 + r.below( 50 );
		c.ctx( "value_ptr steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			int x = static_cast<int>( r.below( 20 ) );
			char const *n = "?";
			bool inject = r.chance( 1, 6 );
			auto before = ms;
			led.l.throw_at = inject ? static_cast<long long>( r.below( 2 ) ) : -1;
			bool threw = false;
			try {
				switch( r.below( 13 ) ) {
				case 0: {
					c.op( n = "value_ptr:construct" );
					V t( x );
					vs[i] = std::move( t );
					ms[i] = x;
					break;
				}
				case 1: {
					c.op( n = "value_ptr:copy-construct" );
					V t( static_cast<V const &>( vs[j] ) );
					c.require_eq( "value_ptr:copy-construct:engaged", static_cast<bool>( t ), ms[j].has_value( ) );
					if( t ) {
						c.require_eq( "value_ptr:copy-construct:value", t->get( ), *ms[j] );
						c.require( "value_ptr:copy-construct:distinct", t.get( ) != vs[j].get( ) );
						*t = Tracked( 777 );
						c.require_eq( "value_ptr:copy-construct:independent", vs[j]->get( ), *ms[j] );
					}
					break;
				}
				case 2: {
					c.op( n = "value_ptr:move-construct" );
					auto *p = vs[j].get( );
					V t( std::move( vs[j] ) );
					c.require_eq( "value_ptr:move-construct:moved", t.get( ) == p, true );
					c.require_eq( "value_ptr:move-construct:source", static_cast<bool>( vs[j] ), false );
					if( r.coin( ) )
						vs[j] = std::move( t );
					else
						ms[j].reset( );
					break;
				}
				case 3:
				case 4:
					c.op( n = "value_ptr:copy-assign" );
					vs[i] = static_cast<V const &>( vs[j] );
					ms[i] = ms[j];
					if( i != j and vs[i] )
						c.require( "value_ptr:copy-assign:distinct", vs[i].get( ) != vs[j].get( ) );
					break;
				case 5:
					c.op( n = "value_ptr:move-assign" );
					vs[i] = std::move( vs[j] );
					if( i != j ) {
						ms[i] = ms[j];
						ms[j].reset( );
					}
					break;
				case 6: {
					c.op( n = "value_ptr:assign(value const &)" );
					Tracked t( x );
					vs[i] = static_cast<Tracked const &>( t );
					ms[i] = x;
					break;
				}
				case 7:
					c.op( n = "value_ptr:assign(value &&)" );
					vs[i] = Tracked( x );
					ms[i] = x;
					break;
				case 8:
					c.op( n = "value_ptr:reset" );
					vs[i].reset( );
					ms[i].reset( );
					break;
				case 9: {
					c.op( n = "value_ptr:release" );
					auto *q = vs[i].get( );
					auto *p = vs[i].release( );
					c.require( "value_ptr:release:pointer", p == q );
					delete p;
					ms[i].reset( );
					break;
				}
				case 10:
					c.op( n = "value_ptr:swap" );
					if( r.coin( ) )
						vs[i].swap( vs[j] );
					else
						swap( vs[i], vs[j] );
					std::swap( ms[i], ms[j] );
					break;
				case 11:
					if( ms[i] ) {
						c.op( n = "value_ptr:write" );
						Tracked t( x );
						switch( r.below( 3 ) ) {
						case 0: *vs[i] = t; break;
						case 1: vs[i]->operator=( t ); break;
						default: static_cast<Tracked &>( vs[i] ) = t; break;
						}
						ms[i] = x;
					}
					break;
				case 12: {
					c.op( n = "value_ptr:emplace" );
					vs[i] = V::emplace<Tracked>( x );
					ms[i] = x;
					break;
				}
				}
			} catch( vf::injected const & ) {
				threw = true;
				ms = before;
			}
			led.l.throw_at = -1;
			std::string const lab = std::string( n ) + ( threw ? "(threw)" : "" );
			size_t live = 0;
			for( size_t q = 0; q < N; ++q ) {
				V const &v = vs[q];
				c.require_eq( ( lab + ":engaged" ).c_str( ), static_cast<bool>( v ), ms[q].has_value( ) );
				c.require_eq( ( lab + ":get" ).c_str( ), v.get( ) != nullptr, ms[q].has_value( ) );
				if( ms[q] ) {
					++live;
					c.require_eq( ( lab + ":value" ).c_str( ), ( *v ).get( ), *ms[q] );
					c.require_eq( ( lab + ":->" ).c_str( ), v->get( ), *ms[q] );
					c.require_eq( ( lab + ":ref" ).c_str( ), static_cast<Tracked const &>( v ).get( ), *ms[q] );
					c.eq( "value_ptr:hash", std::hash<V>{ }( v ), std::hash<Tracked>{ }( *v ) );
				}
				for( size_t z = 0; z < N; ++z ) {
					int e = cmp3( ms[q], ms[z] );
					c.eq( "value_ptr:compare", v.compare( vs[z] ), e );
					c.eq( "value_ptr:==", v == vs[z], e == 0 );
					c.eq( "value_ptr:!=", v != vs[z], e != 0 );
					c.eq( "value_ptr:<", v < vs[z], e < 0 );
					c.eq( "value_ptr:<=", v <= vs[z], e <= 0 );
					c.eq( "value_ptr:>", v > vs[z], e > 0 );
					c.eq( "value_ptr:>=", v >= vs[z], e >= 0 );
				}
			}
			c.require_eq( ( lab + ":live" ).c_str( ), led.l.live.size( ), live );
			led.ok( c, lab.c_str( ) );
		}
	}
	led.check_empty( c, "value_ptr" );
}

// ---- poly_value --------------------------------------------------------
struct PB {
	Tracked t{ 0 };
	PB( ) = default;
	PB( int x ) : t( x ) {}
	PB( PB const & ) = default;
	PB( PB && ) = default;
	PB &operator=( PB const & ) = default;
	PB &operator=( PB && ) = default;
	virtual ~PB( ) = default;
	virtual int kind( ) const { return 0; }
	virtual int value( ) const { return t.get( ); }
};
struct PC : PB {
	Tracked u{ 0 };
	PC( ) = default;
	PC( int x ) : PB( x ), u( x + 1 ) {}
	int kind( ) const override { return 1; }
	int value( ) const override { return t.get( ) * 1000 + u.get( ); }
};
struct PD final : PC {
	Tracked more[3]{ Tracked( 1 ), Tracked( 2 ), Tracked( 3 ) };
	std::string name = "a name that does not fit into a small string";
	PD( ) = default;
	PD( int x, int y ) : PC( x ) { more[1] = Tracked( y ); }
	int kind( ) const override { return 2; }
	int value( ) const override { return t.get( ) * 1000 + more[1].get( ) + ( name.size( ) > 30 ? 0 : 5000000 ); }
};
static size_t tracked_in( int kind ) {
	return kind == 0 ? 1 : ( kind == 1 ? 2 : 5 );
}
struct PM {
	int kind = 0, value = 0;
	bool known = true;
};

VF_FAMILY( poly_value, 3000, 80000 ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	{
		using V = daw::poly_value<PB>;
		constexpr size_t N = 4;
		std::vector<V> vs( N );
		std::vector<PM> ms( N );
		size_t steps = 3 + r.below( 40 );
		c.ctx( "poly_value steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			int x = static_cast<int>( r.below( 100 ) ), y = static_cast<int>( r.below( 100 ) );
			char const *n = "?";
			bool inject = r.chance( 1, 6 );
			auto before = ms;
			led.l.throw_at = inject ? static_cast<long long>( r.below( 6 ) ) : -1;
			bool threw = false;
			if( not ms[j].known )
				j = i; // moved from values are only assigned or destroyed
			try {
				switch( r.below( 10 ) ) {
				case 0: {
					c.op( n = "poly_value:construct(value)" );
					switch( r.below( 3 ) ) {
					case 0: {
						PB v( x );
						V t( v );
						vs[i] = t;
						ms[i] = { 0, x };
						break;
					}
					case 1: {
						V t( PC{ x } );
						vs[i] = std::move( t );
						ms[i] = { 1, x * 1000 + x + 1 };
						break;
					}
					default: {
						PD const v( x, y );
						V t( v );
						vs[i] = std::move( t );
						ms[i] = { 2, x * 1000 + y };
						break;
					}
					}
					break;
				}
				case 1: {
					c.op( n = "poly_value:construct_emplace" );
					V t( daw::construct_emplace<PD>, x, y );
					c.require_eq( "poly_value:construct_emplace:kind", t->kind( ), 2 );
					vs[i] = std::move( t );
					ms[i] = { 2, x * 1000 + y };
					break;
				}
				case 2:
				case 3:
					if( ms[j].known ) {
						c.op( n = "poly_value:copy-assign" );
						vs[i] = static_cast<V const &>( vs[j] );
						ms[i] = ms[j];
						if( i != j )
							c.require( "poly_value:copy-assign:distinct", vs[i].get( ) != vs[j].get( ) );
					}
					break;
				case 4:
					if( ms[j].known ) {
						c.op( n = "poly_value:copy-construct" );
						V t( static_cast<V const &>( vs[j] ) );
						c.require_eq( "poly_value:copy-construct:kind", t->kind( ), ms[j].kind );
						c.require_eq( "poly_value:copy-construct:value", t->value( ), ms[j].value );
						t->t = Tracked( 999 );
						c.require_eq( "poly_value:copy-construct:independent", vs[j]->value( ), ms[j].value );
					}
					break;
				case 5:
					if( ms[j].known and i != j ) {
						led.l.throw_at = -1; // moves are noexcept
						c.op( n = "poly_value:move-assign" );
						vs[i] = std::move( vs[j] );
						ms[i] = ms[j];
						ms[j].known = false;
					}
					break;
				case 6:
					if( ms[j].known ) {
						led.l.throw_at = -1;
						c.op( n = "poly_value:move-construct" );
						V t( std::move( vs[j] ) );
						c.require_eq( "poly_value:move-construct:kind", t->kind( ), ms[j].kind );
						c.require_eq( "poly_value:move-construct:value", t->value( ), ms[j].value );
						vs[j] = std::move( t );
					}
					break;
				case 7:
					c.op( n = "poly_value:assign(value)" );
					if( r.coin( ) ) {
						vs[i] = PC( x );
						ms[i] = { 1, x * 1000 + x + 1 };
					} else {
						PD v( x, y );
						vs[i] = v;
						ms[i] = { 2, x * 1000 + y };
					}
					break;
				case 8: {
					c.op( n = "poly_value:from-child" );
					daw::poly_value<PC> ch( daw::construct_emplace<PD>, x, y );
					if( r.coin( ) ) {
						V t( static_cast<daw::poly_value<PC> const &>( ch ) );
						c.require_eq( "poly_value:from-child:kind", ch->kind( ), 2 );
						c.require( "poly_value:from-child:distinct", static_cast<PB *>( ch.get( ) ) != t.get( ) );
						vs[i] = t;
					} else {
						V t( std::move( ch ) );
						vs[i] = std::move( t );
					}
					ms[i] = { 2, x * 1000 + y };
					break;
				}
				case 9:
					if( ms[i].known ) {
						c.op( n = "poly_value:self-assign" );
						auto &self = vs[i];
						vs[i] = static_cast<V const &>( self );
						vs[i] = std::move( self );
					}
					break;
				}
			} catch( vf::injected const & ) {
				threw = true;
				ms = before;
			}
			led.l.throw_at = -1;
			std::string const lab = std::string( n ) + ( threw ? "(threw)" : "" );
			size_t live = 0;
			bool all = true;
			for( size_t q = 0; q < N; ++q ) {
				if( not ms[q].known ) {
					all = false;
					continue;
				}
				V const &v = vs[q];
				c.require_eq( ( lab + ":kind" ).c_str( ), v->kind( ), ms[q].kind );
				c.require_eq( ( lab + ":value" ).c_str( ), ( *v ).value( ), ms[q].value );
				PB const &b = v;
				PB &mb = vs[q];
				c.require( ( lab + ":ref" ).c_str( ), &b == v.get( ) and &mb == v.get( ) and vs[q].get( ) == &mb );
				live += tracked_in( ms[q].kind );
			}
			if( all )
				c.require_eq( ( lab + ":live" ).c_str( ), led.l.live.size( ), live );
			led.ok( c, lab.c_str( ) );
		}
	}
	led.check_empty( c, "poly_value" );
}

// ---- poly_var ----------------------------------------------------------
VF_FAMILY( poly_var, 2000, 50000 ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	{
		using V = daw::poly_var<PB, PD, PB, PC>;
		constexpr size_t N = 3;
		std::vector<V> vs( N );
		std::vector<PM> ms( N, PM{ 2, 2 } );
		size_t steps = 3 + r.below( 30 );
		c.ctx( "poly_var steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			int x = static_cast<int>( r.below( 100 ) ), y = static_cast<int>( r.below( 100 ) );
			char const *n = "?";
			switch( r.below( 7 ) ) {
			case 0:
				c.op( n = "poly_var:assign(base)" );
				vs[i] = PB( x );
				ms[i] = { 0, x };
				break;
			case 1: {
				c.op( n = "poly_var:assign(child)" );
				PC const t( x );
				vs[i] = t;
				ms[i] = { 1, x * 1000 + x + 1 };
				break;
			}
			case 2: {
				c.op( n = "poly_var:construct" );
				V t( PD( x, y ) );
				vs[i] = std::move( t );
				ms[i] = { 2, x * 1000 + y };
				break;
			}
			case 3:
			case 4:
				c.op( n = "poly_var:copy-assign" );
				vs[i] = static_cast<V const &>( vs[j] );
				ms[i] = ms[j];
				break;
			case 5: {
				c.op( n = "poly_var:copy-construct" );
				V t( vs[j] );
				c.require_eq( "poly_var:copy-construct:kind", t->kind( ), ms[j].kind );
				( *t ).t = Tracked( 555 );
				c.require_eq( "poly_var:copy-construct:write", t->t.get( ), 555 );
				break;
			}
			case 6:
				if( ms[i].kind == 0 ) {
					c.op( n = "poly_var:write" );
					( *vs[i] ).t = Tracked( x );
					ms[i].value = x;
				}
				break;
			}
			size_t live = 0;
			for( size_t q = 0; q < N; ++q ) {
				V const &v = vs[q];
				c.require_eq( ( std::string( n ) + ":kind" ).c_str( ), v->kind( ), ms[q].kind );
				c.require_eq( ( std::string( n ) + ":value" ).c_str( ), v->value( ), ms[q].value );
				c.require_eq( ( std::string( n ) + ":*kind" ).c_str( ), ( *v ).kind( ), ms[q].kind );
				c.require_eq( ( std::string( n ) + ":*value" ).c_str( ), ( *vs[q] ).value( ), ms[q].value );
				c.require( "poly_var:identity", std::addressof( *v ) == v.operator->( ) and
				                                  std::addressof( *vs[q] ) == vs[q].operator->( ) );
				live += tracked_in( ms[q].kind );
			}
			c.require_eq( ( std::string( n ) + ":live" ).c_str( ), led.l.live.size( ), live );
			led.ok( c, n );
		}
	}
	led.check_empty( c, "poly_var" );
}

// ---- sbo_storage -------------------------------------------------------
template<size_t Sz, size_t Al = alignof( Tracked )>
struct alignas( Al ) Blob {
	Tracked t;
	unsigned char pad[Sz];
	Blob( int x ) : t( x ) { std::memset( pad, x, Sz ); }
	Blob( Blob const & ) = default;
	Blob( Blob && ) = default;
	bool good( int x ) const {
		for( auto p : pad )
			if( p != static_cast<unsigned char>( x ) )
				return false;
		return t.get( ) == x;
	}
};
template<typename S, typename B>
static void sbo_one( vf::Case &c, vf::LedgerScope &led, S &s, char const *what ) {
	auto &r = c.rng;
	int x = static_cast<int>( r.below( 100 ) );
	std::string lab = vf::cat( "sbo:", what );
	c.op( lab.c_str( ) );
	bool threw = false;
	{
		B v( x );
		if( r.chance( 1, 4 ) )
			led.l.throw_at = 0;
		B *p = nullptr;
		try {
			switch( r.below( 3 ) ) {
			case 0: p = s.allocate( static_cast<B const &>( v ) ); break;
			case 1: p = s.allocate( v ); break;
			default:
				led.l.throw_at = -1;
				p = s.allocate( std::move( v ) );
				break;
			}
		} catch( vf::injected const & ) {
			threw = true;
		}
		led.l.throw_at = -1;
		if( not threw )
			c.require( ( lab + ":pointer" ).c_str( ), p == s.template get<B>( ) );
	}
	if( threw ) {
		c.require_eq( ( lab + ":throw:live" ).c_str( ), led.l.live.size( ), size_t{ 0 } );
		return;
	}
	S const &cs = s;
	c.require( ( lab + ":const" ).c_str( ), cs.template get<B>( ) == s.template get<B>( ) );
	c.require_eq( ( lab + ":alignment" ).c_str( ),
	              reinterpret_cast<uintptr_t>( s.template get<B>( ) ) % alignof( B ), uintptr_t{ 0 } );
	c.require( ( lab + ":value" ).c_str( ), s.template get<B>( )->good( x ) );
	c.require_eq( ( lab + ":live" ).c_str( ), led.l.live.size( ), size_t{ 1 } );
	s.template deallocate<B>( );
	c.require_eq( ( lab + ":dead" ).c_str( ), led.l.live.size( ), size_t{ 0 } );
}
template<typename S>
static void sbo_hist( vf::Case &c ) {
	vf::LedgerScope led;
	{
		auto sp = std::make_unique<S>( );
		auto &s = *sp;
		size_t steps = 1 + c.rng.below( 20 );
		c.ctx( "sbo steps=", steps, " size=", sizeof( S ) );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			switch( c.rng.below( 6 ) ) {
			case 0: sbo_one<S, Blob<1>>( c, led, s, "tiny" ); break;
			case 1: sbo_one<S, Blob<16>>( c, led, s, "edge" ); break;
			case 2: sbo_one<S, Blob<48>>( c, led, s, "mid" ); break;
			case 3: sbo_one<S, Blob<400>>( c, led, s, "big" ); break;
			case 4: sbo_one<S, Blob<4, 32>>( c, led, s, "aligned32" ); break;
			case 5: sbo_one<S, Blob<4, 128>>( c, led, s, "aligned128" ); break;
			}
			led.ok( c, "sbo" );
		}
	}
	led.check_empty( c, "sbo" );
}
VF_FAMILY( sbo, 1500, 40000 ) {
	switch( c.rng.below( 5 ) ) {
	case 0: sbo_hist<daw::sbo_storage<>>( c ); break;
	case 1: sbo_hist<daw::sbo_storage<32>>( c ); break;
	case 2: sbo_hist<daw::sbo_storage<64, 8>>( c ); break;
	case 3: sbo_hist<daw::sbo_storage<128, 64>>( c ); break;
	case 4: sbo_hist<daw::sbo_storage<40, 1>>( c ); break;
	}
}

// ---- heap_value --------------------------------------------------------
VF_FAMILY( heap_value, 2500, 60000 ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	{
		using V = daw::heap_value<Tracked>;
		constexpr size_t N = 4;
		std::vector<V> vs( N );
		std::vector<OI> ms( N, OI( 0 ) ); // nullopt: moved from
		size_t steps = 3 + r.below( 40 );
		c.ctx( "heap_value steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			int x = static_cast<int>( r.below( 20 ) );
			char const *n = "?";
			auto before = ms;
			led.l.throw_at = r.chance( 1, 6 ) ? static_cast<long long>( r.below( 2 ) ) : -1;
			bool threw = false;
			try {
				switch( r.below( 8 ) ) {
				case 0: {
					c.op( n = "heap_value:construct" );
					V t( x );
					vs[i] = std::move( t );
					ms[i] = x;
					break;
				}
				case 1: {
					c.op( n = "heap_value:construct(value)" );
					Tracked v( x );
					V t( v );
					vs[i] = t;
					ms[i] = x;
					break;
				}
				case 2: {
					c.op( n = "heap_value:copy-construct" );
					V t( vs[j] );
					if( ms[j] ) {
						c.require_eq( "heap_value:copy:value", t->get( ), *ms[j] );
						c.require( "heap_value:copy:distinct", t.ptr( ) != vs[j].ptr( ) );
						*t = Tracked( 321 );
						c.require_eq( "heap_value:copy:independent", vs[j]->get( ), *ms[j] );
					}
					break;
				}
				case 3:
				case 4:
					c.op( n = "heap_value:copy-assign" );
					vs[i] = static_cast<V const &>( vs[j] );
					ms[i] = ms[j];
					break;
				case 5:
					if( i != j ) {
						c.op( n = "heap_value:move-assign" );
						vs[i] = std::move( vs[j] );
						ms[i] = ms[j];
						ms[j].reset( );
					}
					break;
				case 6:
					c.op( n = "heap_value:swap" );
					if( r.coin( ) )
						vs[i].swap( vs[j] );
					else
						swap( vs[i], vs[j] );
					std::swap( ms[i], ms[j] );
					break;
				case 7:
					if( ms[i] ) {
						c.op( n = "heap_value:write" );
						Tracked t( x );
						if( r.coin( ) )
							*vs[i] = t;
						else
							vs[i].get( ) = t;
						ms[i] = x;
					}
					break;
				}
			} catch( vf::injected const & ) {
				threw = true;
				ms = before;
			}
			led.l.throw_at = -1;
			std::string const lab = std::string( n ) + ( threw ? "(threw)" : "" );
			size_t live = 0;
			for( size_t q = 0; q < N; ++q ) {
				if( not ms[q] )
					continue;
				++live;
				V const &v = vs[q];
				c.require_eq( ( lab + ":value" ).c_str( ), ( *v ).get( ), *ms[q] );
				c.require_eq( ( lab + ":get" ).c_str( ), v.get( ).get( ), *ms[q] );
				c.require( ( lab + ":ptr" ).c_str( ), v.ptr( ) == &*vs[q] and v.operator->( ) == v.ptr( ) );
				for( size_t z = 0; z < N; ++z ) {
					if( not ms[z] )
						continue;
					int e = cmp3( ms[q], ms[z] );
					c.eq( "heap_value:==", v == vs[z], e == 0 );
					c.eq( "heap_value:!=", v != vs[z], e != 0 );
					c.eq( "heap_value:<", v < vs[z], e < 0 );
					c.eq( "heap_value:<=", v <= vs[z], e <= 0 );
					c.eq( "heap_value:>", v > vs[z], e > 0 );
					c.eq( "heap_value:>=", v >= vs[z], e >= 0 );
				}
			}
			// a moved from slot may or may not still own a value
			if( live == N )
				c.require_eq( ( lab + ":live" ).c_str( ), led.l.live.size( ), live );
			led.ok( c, lab.c_str( ) );
		}
		daw::heap_value<std::vector<int>> hv( std::vector<int>{ 1, 2, 3 } );
		auto const &chv = hv;
		c.eq( "heap_value:[]", hv[1], 2 );
		c.eq( "heap_value:[]const", chv[2], 3 );
		struct Sum {
			int k = 5;
			int operator( )( int a, int b ) const { return a * 10 + b + k; }
		};
		daw::heap_value<Sum> hs{ };
		c.eq( "heap_value:()", hs( 3, 4 ), 39 );
	}
	led.check_empty( c, "heap_value" );
}
VF_MAIN( )
