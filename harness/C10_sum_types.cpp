// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include "vf.h"
#include "vf_types.h"
#include <memory>
#include <optional>
#include <daw/daw_optional.h>
#include <daw/daw_expected.h>
#include <daw/daw_union_pair.h>
#include <daw/daw_validated.h>
using vf::Tracked;
using OI = std::optional<int>;

template<typename A, typename B>
static void relops( vf::Case &c, A const &a, B const &b, OI ma, OI mb, char const *w ) {
	c.eq( vf::cat( w, ":==" ).c_str( ), a == b, ma == mb );
	c.eq( vf::cat( w, ":!=" ).c_str( ), a != b, ma != mb );
	c.eq( vf::cat( w, ":<" ).c_str( ), a < b, ma < mb );
	c.eq( vf::cat( w, ":<=" ).c_str( ), a <= b, ma <= mb );
	c.eq( vf::cat( w, ":>" ).c_str( ), a > b, ma > mb );
	c.eq( vf::cat( w, ":>=" ).c_str( ), a >= b, ma >= mb );
}

VF_FAMILY( optional_value, 2500, 120000 ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	{
		using O = daw::optional<Tracked>;
		constexpr size_t N = 4;
		std::vector<O> vs( N );
		std::vector<OI> ms( N );
		size_t steps = 3 + r.below( 40 );
		c.ctx( "optional steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			int x = static_cast<int>( r.below( 10 ) );
			char const *n = "?";
			auto before = ms;
			bool lost = false;
			led.l.throw_at = r.chance( 1, 6 ) ? static_cast<long long>( r.below( 2 ) ) : -1;
			bool threw = false;
			try {
				switch( r.below( 13 ) ) {
				case 0: {
					c.op( n = "optional:assign(value)" );
					Tracked t( x );
					vs[i] = static_cast<Tracked const &>( t );
					ms[i] = x;
					break;
				}
				case 1:
					c.op( n = "optional:assign(value &&)" );
					vs[i] = Tracked( x );
					ms[i] = x;
					break;
				case 2:
					c.op( n = "optional:copy-assign" );
					vs[i] = static_cast<O const &>( vs[j] );
					ms[i] = ms[j];
					break;
				case 3:
					if( i != j ) {
						c.op( n = "optional:move-assign" );
						vs[i] = std::move( vs[j] );
						ms[i] = ms[j];
						vs[j].reset( );
						ms[j].reset( );
					}
					break;
				case 4: {
					c.op( n = "optional:copy-construct" );
					O t( static_cast<O const &>( vs[j] ) );
					c.require_eq( "optional:copy:engaged", t.has_value( ), ms[j].has_value( ) );
					if( t ) {
						c.require_eq( "optional:copy:value", t->get( ), *ms[j] );
						*t = Tracked( 99 );
					}
					break;
				}
				case 5:
					c.op( n = "optional:emplace" );
					lost = true; // a failed emplace leaves it empty
					{
						Tracked &ref = vs[i].emplace( x );
						c.require( "optional:emplace:ref", &ref == &*vs[i] );
					}
					lost = false;
					ms[i] = x;
					break;
				case 6:
					c.op( n = "optional:reset" );
					vs[i].reset( );
					ms[i].reset( );
					break;
				case 7:
					c.op( n = "optional:assign(nullopt)" );
					if( r.coin( ) )
						vs[i] = daw::nullopt;
					else
						vs[i] = std::nullopt;
					ms[i].reset( );
					break;
				case 8:
					c.op( n = "optional:swap" );
					vs[i].swap( vs[j] );
					std::swap( ms[i], ms[j] );
					break;
				case 9:
					if( ms[i] ) {
						c.op( n = "optional:write" );
						Tracked t( x );
						switch( r.below( 3 ) ) {
						case 0: *vs[i] = t; break;
						case 1: vs[i].value( ) = t; break;
						default: vs[i]->operator=( t ); break;
						}
						ms[i] = x;
					}
					break;
				case 10: {
					c.op( n = "optional:construct" );
					O t( Tracked{ x } );
					O e( std::nullopt );
					c.require_eq( "optional:construct:nullopt", e.has_value( ), false );
					vs[i] = std::move( t );
					ms[i] = x;
					break;
				}
				case 11:
					if( ms[i] ) {
						c.op( n = "optional:move-out" );
						Tracked t = r.coin( ) ? *std::move( vs[i] ) : std::move( vs[i] ).value( );
						c.require_eq( "optional:move-out:value", t.get( ), *ms[i] );
						c.require_eq( "optional:move-out:still-engaged", vs[i].has_value( ), true );
						vs[i].reset( );
						ms[i].reset( );
					}
					break;
				case 12: {
					c.op( n = "optional:self-assign" );
					auto &s = vs[i];
					vs[i] = static_cast<O const &>( s );
					break;
				}
				}
			} catch( vf::injected const & ) {
				threw = true;
				ms = before;
				if( lost )
					ms[i].reset( );
			}
			led.l.throw_at = -1;
			std::string lab = std::string( n ) + ( threw ? "(threw)" : "" );
			size_t live = 0;
			for( size_t q = 0; q < N; ++q ) {
				O const &v = vs[q];
				c.require_eq( ( lab + ":has_value" ).c_str( ), v.has_value( ), ms[q].has_value( ) );
				c.require_eq( ( lab + ":bool" ).c_str( ), static_cast<bool>( v ), ms[q].has_value( ) );
				bool th = false;
				try {
					c.require_eq( ( lab + ":value" ).c_str( ), v.value( ).get( ), ms[q].value_or( -7 ) );
				} catch( std::bad_optional_access const & ) {
					th = true;
				}
				c.require_eq( ( lab + ":value-throws" ).c_str( ), th, not ms[q].has_value( ) );
				if( ms[q] ) {
					++live;
					c.require_eq( ( lab + ":*" ).c_str( ), ( *v ).get( ), *ms[q] );
					c.require_eq( ( lab + ":->" ).c_str( ), v->get( ), *ms[q] );
					c.require( ( lab + ":->addr" ).c_str( ), v.operator->( ) == &*v and vs[q].operator->( ) == &*vs[q] );
				}
				for( size_t z = 0; z < N; ++z )
					relops( c, v, vs[z], ms[q], ms[z], "optional-optional" );
				relops( c, v, std::nullopt, ms[q], OI( ), "optional-nullopt" );
				relops( c, std::nullopt, v, OI( ), ms[q], "nullopt-optional" );
				int y = static_cast<int>( r.below( 10 ) );
				Tracked ty( y );
				relops( c, v, ty, ms[q], OI( y ), "optional-value" );
				relops( c, ty, v, OI( y ), ms[q], "value-optional" );
			}
			c.require_eq( ( lab + ":live" ).c_str( ), led.l.live.size( ), live );
			led.ok( c, lab.c_str( ) );
		}
	}
	led.check_empty( c, "optional" );
}

VF_FAMILY( optional_ref, 2000, 40000 ) {
	auto &r = c.rng;
	using O = daw::optional<int &>;
	constexpr size_t N = 4;
	int store[5] = { 10, 11, 12, 12, 9 };
	std::vector<O> vs( N );
	std::vector<int> ms( N, -1 );
	size_t steps = 3 + r.below( 30 );
	c.ctx( "optional_ref steps=", steps );
	c.nontrivial( c.idx );
	for( size_t k = 0; k < steps; ++k ) {
		size_t i = r.below( N ), j = r.below( N );
		char const *n = "?";
		switch( r.below( 7 ) ) {
		case 0: {
			c.op( n = "optional_ref:bind" );
			size_t s = r.below( 5 );
			vs[i] = O( store[s] );
			ms[i] = static_cast<int>( s );
			break;
		}
		case 1:
			c.op( n = "optional_ref:copy" );
			vs[i] = vs[j];
			ms[i] = ms[j];
			break;
		case 2:
			c.op( n = "optional_ref:swap" );
			vs[i].swap( vs[j] );
			std::swap( ms[i], ms[j] );
			break;
		case 3:
			c.op( n = "optional_ref:reset" );
			if( r.coin( ) )
				vs[i].reset( );
			else
				vs[i] = std::nullopt;
			ms[i] = -1;
			break;
		case 4:
			if( ms[i] >= 0 ) {
				c.op( n = "optional_ref:write-through" );
				int x = static_cast<int>( r.below( 20 ) );
				*vs[i] = x;
				c.require_eq( "optional_ref:write-through", store[ms[i]], x );
			}
			break;
		case 5: {
			c.op( n = "optional_ref:move-construct" );
			O t( std::move( vs[j] ) );
			c.require_eq( "optional_ref:move:has_value", t.has_value( ), ms[j] >= 0 );
			if( t )
				c.require( "optional_ref:move:addr", &*t == &store[ms[j]] );
			vs[j] = t;
			break;
		}
		case 6:
			c.op( n = "optional_ref:outer-write" );
			store[r.below( 5 )] = static_cast<int>( r.below( 20 ) );
			break;
		}
		for( size_t q = 0; q < N; ++q ) {
			O const &v = vs[q];
			bool has = ms[q] >= 0;
			OI mq = has ? OI( store[ms[q]] ) : OI( );
			c.require_eq( vf::cat( n, ":has_value" ).c_str( ), v.has_value( ), has );
			c.require_eq( vf::cat( n, ":bool" ).c_str( ), static_cast<bool>( v ), has );
			bool th = false;
			try {
				c.require( vf::cat( n, ":value" ).c_str( ), &v.value( ) == &store[has ? ms[q] : 0] and &vs[q].value( ) == &v.value( ) );
			} catch( std::bad_optional_access const & ) {
				th = true;
			}
			c.require_eq( vf::cat( n, ":value-throws" ).c_str( ), th, not has );
			if( has ) {
				c.require( vf::cat( n, ":*" ).c_str( ), &*v == &store[ms[q]] and &*vs[q] == &store[ms[q]] );
				c.require( vf::cat( n, ":->" ).c_str( ), v.operator->( ) == &store[ms[q]] );
			}
			for( size_t z = 0; z < N; ++z )
				relops( c, v, vs[z], mq, ms[z] >= 0 ? OI( store[ms[z]] ) : OI( ), "optional_ref" );
			relops( c, v, std::nullopt, mq, OI( ), "optional_ref-nullopt" );
			relops( c, std::nullopt, v, OI( ), mq, "nullopt-optional_ref" );
			relops( c, v, 12, mq, OI( 12 ), "optional_ref-value" );
			relops( c, 12, v, OI( 12 ), mq, "value-optional_ref" );
		}
	}
}

// ---- expected ----------------------------------------------------------
struct EM {
	enum K { empty, exc, val } k = empty;
	int x = 0;
	friend bool operator==( EM const &, EM const & ) = default;
};
// an exception that is no std::runtime_error, nor std::logic_error
struct own_exception : std::exception {
	std::string w;
	explicit own_exception( int id )
	  : w( std::to_string( id ) ) {}
	char const *what( ) const noexcept override {
		return w.c_str( );
	}
};
static std::exception_ptr make_exc( int id ) {
	if( id % 3 == 0 ) {
		if( id % 2 == 0 )
			return std::make_exception_ptr( std::runtime_error( std::to_string( id ) ) );
		if( id % 4 == 1 )
			return std::make_exception_ptr( std::out_of_range( std::to_string( id ) ) );
		return std::make_exception_ptr( own_exception( id ) );
	}
	if( id % 3 == 1 )
		return std::make_exception_ptr( id );
	return std::make_exception_ptr( std::system_error( std::make_error_code( std::errc::invalid_argument ), std::to_string( id ) ) );
}
static int id_of( std::exception_ptr p ) {
	try {
		std::rethrow_exception( p );
	} catch( std::system_error const &e ) {
		std::string w = e.what( );
		return std::atoi( w.c_str( ) );
	} catch( std::exception const &e ) {
		return std::atoi( e.what( ) );
	} catch( int i ) {
		return i;
	} catch( ... ) {}
	return -1;
}
template<typename E>
static void check_expected( vf::Case &c, E &e, EM const &m, std::string const &lab ) {
	E const &v = e;
	c.require_eq( ( lab + ":empty" ).c_str( ), v.empty( ), m.k == EM::empty );
	c.require_eq( ( lab + ":has_value" ).c_str( ), v.has_value( ), m.k == EM::val );
	c.require_eq( ( lab + ":has_exception" ).c_str( ), v.has_exception( ), m.k == EM::exc );
	c.require_eq( ( lab + ":bool" ).c_str( ), static_cast<bool>( v ), m.k != EM::empty );
	int got = -1;
	try {
		v.throw_if_exception( );
	} catch( ... ) {
		got = id_of( std::current_exception( ) );
	}
	c.require_eq( ( lab + ":throw_if_exception" ).c_str( ), got, m.k == EM::exc ? m.x : -1 );
	if( m.k == EM::exc ) {
		c.require_eq( ( lab + ":get_exception_ptr" ).c_str( ), id_of( v.get_exception_ptr( ) ), m.x );
		got = -1;
		try {
			v.get( );
		} catch( ... ) {
			got = id_of( std::current_exception( ) );
		}
		c.require_eq( ( lab + ":get-throws" ).c_str( ), got, m.x );
		std::string msg = v.get_exception_message( );
		if( m.x % 3 == 0 )
			c.require_eq( ( lab + ":message" ).c_str( ), msg, std::to_string( m.x ) );
		if( m.x % 3 == 1 )
			c.require_eq( ( lab + ":message" ).c_str( ), msg, std::string( ) );
		if( m.x % 3 == 2 ) {
			c.require( ( lab + ":message" ).c_str( ), msg.find( std::to_string( m.x ) ) != std::string::npos );
			c.require( ( lab + ":message" ).c_str( ), msg.find( std::make_error_code( std::errc::invalid_argument ).message( ) ) != std::string::npos );
		}
	} else
		c.require_eq( ( lab + ":message" ).c_str( ), v.get_exception_message( ), std::string( ) );
}

template<typename T>
static void expected_history( vf::Case &c, bool throwing_move ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	{
		using E = daw::expected_t<T>;
		constexpr size_t N = 4;
		std::vector<E> vs;
		vs.reserve( N );
		for( size_t i = 0; i < N; ++i )
			vs.emplace_back( );
		std::vector<EM> ms( N );
		int next = 0;
		size_t steps = 3 + r.below( 40 );
		c.ctx( "expected steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			int x = static_cast<int>( r.below( 10 ) );
			char const *n = "?";
			auto before = ms;
			led.l.throw_at = r.chance( 1, 6 ) ? static_cast<long long>( r.below( 3 ) ) : -1;
			bool threw = false;
			try {
				switch( r.below( 16 ) ) {
				case 0: {
					c.op( n = "expected:set_value(const &)" );
					T t( x );
					vs[i].set_value( static_cast<T const &>( t ) );
					ms[i] = { EM::val, x };
					break;
				}
				case 1:
					c.op( n = "expected:set_value(&&)" );
					vs[i].set_value( T( x ) );
					ms[i] = { EM::val, x };
					break;
				case 2: {
					c.op( n = "expected:assign(value)" );
					T t( x );
					if( r.coin( ) )
						vs[i] = static_cast<T const &>( t );
					else
						vs[i] = std::move( t );
					ms[i] = { EM::val, x };
					break;
				}
				case 3:
					c.op( n = "expected:set_exception" );
					vs[i].set_exception( make_exc( next ) );
					ms[i] = { EM::exc, next++ };
					break;
				case 4:
					c.op( n = "expected:assign(exception_ptr)" );
					vs[i] = make_exc( next );
					ms[i] = { EM::exc, next++ };
					break;
				case 5: {
					c.op( n = "expected:set_exception(current)" );
					int id = next++;
					try {
						std::rethrow_exception( make_exc( id ) );
					} catch( ... ) {
						if( r.coin( ) )
							vs[i].set_exception( );
						else
							vs[i] = daw::expected_from_exception<T>( );
					}
					ms[i] = { EM::exc, id };
					break;
				}
				case 6:
					c.op( n = "expected:clear" );
					vs[i].clear( );
					ms[i] = { };
					break;
				case 7:
					c.op( n = "expected:copy-assign" );
					vs[i] = static_cast<E const &>( vs[j] );
					ms[i] = ms[j];
					break;
				case 8:
					if( i != j ) {
						c.op( n = "expected:move-assign" );
						vs[i] = std::move( vs[j] );
						ms[i] = ms[j];
						vs[j].clear( );
						ms[j] = { };
					}
					break;
				case 9: {
					c.op( n = "expected:copy-construct" );
					E t( vs[j] );
					check_expected( c, t, ms[j], "expected:copy-construct" );
					if( t.has_value( ) )
						c.require_eq( "expected:copy-construct:value", t->get( ), ms[j].x );
					break;
				}
				case 10:
				case 11: {
					bool fail = r.chance( 1, 3 );
					int calls = 0, id = next;
					auto f = [&]( int a, int const &b ) {
						++calls;
						if( fail )
							std::rethrow_exception( make_exc( id ) );
						return T( a * 10 + b );
					};
					// an exception injected into the function is captured as well
					long long saved = led.l.throw_at;
					led.l.throw_at = -1;
					switch( r.below( 4 ) ) {
					case 0:
						c.op( n = "expected:construct(function)" );
						vs[i] = E( f, 2, x );
						break;
					case 1:
						c.op( n = "expected:from_code" );
						vs[i] = E::from_code( f, 2, x );
						break;
					case 2:
						c.op( n = "expected_from_code" );
						vs[i] = daw::expected_from_code( f, 2, x );
						break;
					default:
						c.op( n = "expected_from_code<R>" );
						vs[i] = daw::expected_from_code<T>( f, 2, x );
						break;
					}
					led.l.throw_at = saved;
					c.require_eq( vf::cat( n, ":calls" ).c_str( ), calls, 1 );
					if( fail ) {
						ms[i] = { EM::exc, id };
						++next;
					} else
						ms[i] = { EM::val, 20 + x };
					break;
				}
				case 12:
					c.op( n = "expected:construct(exception)" );
					if( r.coin( ) ) {
						vs[i] = E( make_exc( next ) );
						ms[i] = { EM::exc, next++ };
					} else {
						next += ( 3 - next % 3 ) % 3;
						vs[i] = E( typename E::exception_tag{ }, std::runtime_error( std::to_string( next ) ) );
						ms[i] = { EM::exc, next++ };
					}
					break;
				case 13:
					if( ms[i].k == EM::val ) {
						c.op( n = "expected:write" );
						T t( x );
						switch( r.below( 3 ) ) {
						case 0: *vs[i] = t; break;
						case 1: vs[i].get( ) = t; break;
						default: vs[i]->operator=( t ); break;
						}
						ms[i].x = x;
					}
					break;
				case 14:
					if( ms[i].k == EM::val ) {
						c.op( n = "expected:move-out" );
						led.l.throw_at = -1;
						T t = std::move( vs[i] ).get( );
						c.require_eq( "expected:move-out:value", t.get( ), ms[i].x );
						vs[i].set_value( T( x ) );
						ms[i].x = x;
					}
					break;
				case 15: {
					c.op( n = "expected:construct(value)" );
					T t( x );
					if( r.coin( ) )
						vs[i] = E( static_cast<T const &>( t ) );
					else
						vs[i] = E( std::move( t ) );
					ms[i] = { EM::val, x };
					break;
				}
				}
			} catch( vf::injected const & ) {
				threw = true;
				ms = before;
				if( throwing_move ) {
					// the old value or nothing is left of the target
					if( vs[i].empty( ) )
						ms[i] = { };
					else if( before[i].k == EM::val )
						vs[i].set_value( T( before[i].x ) ); // moved through
					if( vs[j].has_value( ) and i != j )
						vs[j].set_value( T( before[j].x ) );
				}
			}
			led.l.throw_at = -1;
			std::string lab = std::string( n ) + ( threw ? "(threw)" : "" );
			size_t live = 0;
			for( size_t q = 0; q < N; ++q ) {
				E const &v = vs[q];
				check_expected( c, vs[q], ms[q], lab );
				if( ms[q].k == EM::val ) {
					++live;
					c.require_eq( ( lab + ":get" ).c_str( ), v.get( ).get( ), ms[q].x );
					c.require_eq( ( lab + ":*" ).c_str( ), ( *v ).get( ), ms[q].x );
					c.require_eq( ( lab + ":->" ).c_str( ), v->get( ), ms[q].x );
					c.require( ( lab + ":addr" ).c_str( ), &v.get( ) == &*vs[q] and v.operator->( ) == &vs[q].get( ) );
				}
				for( size_t z = 0; z < N; ++z ) {
					bool e = ms[q] == ms[z];
					c.eq( "expected:==", v == vs[z], e );
					c.eq( "expected:!=", v != vs[z], not e );
				}
			}
			c.require_eq( ( lab + ":live" ).c_str( ), led.l.live.size( ), live );
			led.ok( c, lab.c_str( ) );
		}
	}
	led.check_empty( c, "expected" );
}
VF_FAMILY( expected_value, 3000, 90000 ) { expected_history<Tracked>( c, false ); }
VF_FAMILY( expected_throwing_move, 1500, 40000 ) { expected_history<vf::ThrowMove>( c, true ); }

VF_FAMILY( expected_void, 2000, 40000 ) {
	auto &r = c.rng;
	using E = daw::expected_t<void>;
	constexpr size_t N = 3;
	std::vector<E> vs( N );
	std::vector<EM> ms( N );
	int next = 0;
	size_t steps = 3 + r.below( 30 );
	c.ctx( "expected_void steps=", steps );
	c.nontrivial( c.idx );
	for( size_t k = 0; k < steps; ++k ) {
		size_t i = r.below( N ), j = r.below( N );
		char const *n = "?";
		switch( r.below( 9 ) ) {
		case 0:
			c.op( n = "expected<void>:set_value" );
			if( r.coin( ) )
				vs[i].set_value( );
			else
				vs[i].set_value( 55 );
			ms[i] = { EM::val, 0 };
			break;
		case 1:
			c.op( n = "expected<void>:assign(bool)" );
			vs[i] = true;
			ms[i] = { EM::val, 0 };
			break;
		case 2:
			c.op( n = "expected<void>:set_exception" );
			vs[i].set_exception( make_exc( next ) );
			ms[i] = { EM::exc, next++ };
			break;
		case 3:
			c.op( n = "expected<void>:assign(exception_ptr)" );
			vs[i] = make_exc( next );
			ms[i] = { EM::exc, next++ };
			break;
		case 4:
			c.op( n = "expected<void>:clear" );
			vs[i].clear( );
			ms[i] = { };
			break;
		case 5:
			c.op( n = "expected<void>:copy" );
			vs[i] = static_cast<E const &>( vs[j] );
			ms[i] = ms[j];
			break;
		case 6:
			c.op( n = "expected<void>:construct(exception)" );
			vs[i] = r.coin( ) ? E( make_exc( next ) ) : daw::expected_from_exception<void>( make_exc( next ) );
			ms[i] = { EM::exc, next++ };
			break;
		default: {
			bool fail = r.coin( );
			int calls = 0, id = next++;
			auto f = [&]( int a ) {
				++calls;
				if( fail )
					std::rethrow_exception( make_exc( id ) );
				(void)a;
			};
			switch( r.below( 4 ) ) {
			case 0:
				c.op( n = "expected<void>:construct(function)" );
				vs[i] = E( f, 2 );
				break;
			case 1:
				c.op( n = "expected<void>:from_code" );
				vs[i] = E::from_code( f, 2 );
				break;
			case 2:
				c.op( n = "expected_from_code:void" );
				vs[i] = daw::expected_from_code( f, 2 );
				break;
			default:
				c.op( n = "expected_from_code<void>" );
				vs[i] = daw::expected_from_code<void>( f, 2 );
				break;
			}
			c.require_eq( vf::cat( n, ":calls" ).c_str( ), calls, 1 );
			ms[i] = fail ? EM{ EM::exc, id } : EM{ EM::val, 0 };
			break;
		}
		}
		for( size_t q = 0; q < N; ++q ) {
			E const &v = vs[q];
			// the message of a system_error is formatted differently here
			check_expected( c, vs[q], ms[q], n );
			if( ms[q].k == EM::val )
				v.get( );
			for( size_t z = 0; z < N; ++z ) {
				c.eq( "expected<void>:==", v == vs[z], ms[q] == ms[z] );
				c.eq( "expected<void>:!=", v != vs[z], not( ms[q] == ms[z] ) );
			}
		}
	}
	// results that convert
	c.eq( "expected_from_code<double>(int)", daw::expected_from_code<double>( []( int x ) { return x; }, 3 ).get( ), 3.0 );
	c.eq( "expected<string>(char const *)", *daw::expected_t<std::string>::from_code( [] { return "abc"; } ), std::string( "abc" ) );
}

// ---- union_pair --------------------------------------------------------
struct UM {
	int k = 2; // 0, 1, 2: nothing
	int x = 0;
	bool known = true;
};
VF_FAMILY( union_pair, 4000, 120000 ) {
	vf::LedgerScope led;
	auto &r = c.rng;
	{
		using Str = std::string;
		using U = daw::union_pair_t<Tracked, Str>;
		auto str = []( int x ) { return Str( 30 + x, static_cast<char>( 'a' + x % 26 ) ); };
		constexpr size_t N = 4;
		std::vector<U> vs( N );
		std::vector<UM> ms( N );
		size_t steps = 3 + r.below( 40 );
		c.ctx( "union_pair steps=", steps );
		c.nontrivial( c.idx );
		for( size_t k = 0; k < steps; ++k ) {
			size_t i = r.below( N ), j = r.below( N );
			int x = static_cast<int>( r.below( 26 ) );
			char const *n = "?";
			auto before = ms;
			led.l.throw_at = r.chance( 1, 6 ) ? static_cast<long long>( r.below( 2 ) ) : -1;
			bool threw = false;
			if( not ms[j].known )
				j = i;
			try {
				switch( r.below( 10 ) ) {
				case 0: {
					c.op( n = "union_pair:assign0(const &)" );
					Tracked t( x );
					vs[i] = static_cast<Tracked const &>( t );
					ms[i] = { 0, x };
					break;
				}
				case 1:
					c.op( n = "union_pair:assign0(&&)" );
					vs[i] = Tracked( x );
					ms[i] = { 0, x };
					break;
				case 2: {
					c.op( n = "union_pair:assign1(const &)" );
					Str const s = str( x );
					vs[i] = s;
					ms[i] = { 1, x };
					break;
				}
				case 3:
					c.op( n = "union_pair:assign1(&&)" );
					vs[i] = str( x );
					ms[i] = { 1, x };
					break;
				case 4:
				case 5:
					if( ms[j].known ) {
						c.op( n = "union_pair:copy-assign" );
						vs[i] = static_cast<U const &>( vs[j] );
						ms[i] = ms[j];
					}
					break;
				case 6:
					if( ms[j].known and i != j ) {
						c.op( n = "union_pair:move-assign" );
						vs[i] = std::move( vs[j] );
						ms[i] = ms[j];
						ms[j].known = false;
					}
					break;
				case 7:
					if( ms[j].known ) {
						c.op( n = "union_pair:copy-construct" );
						U t( static_cast<U const &>( vs[j] ) );
						c.require_eq( "union_pair:copy:which", static_cast<int>( t.which( ) ), ms[j].k );
						U m( std::move( t ) );
						c.require_eq( "union_pair:move:which", static_cast<int>( m.which( ) ), ms[j].k );
						vs[i] = std::move( m );
						ms[i] = ms[j];
					}
					break;
				case 8: {
					c.op( n = "union_pair:construct" );
					switch( r.below( 4 ) ) {
					case 0: {
						Tracked t( x );
						U u( t );
						vs[i] = std::move( u );
						ms[i] = { 0, x };
						break;
					}
					case 1:
						vs[i] = U( Tracked( x ) );
						ms[i] = { 0, x };
						break;
					case 2: {
						Str const s = str( x );
						U u( s );
						vs[i] = u;
						ms[i] = { 1, x };
						break;
					}
					default:
						vs[i] = U( );
						ms[i] = { };
						break;
					}
					break;
				}
				case 9:
					if( ms[i].known and ms[i].k != 2 ) {
						c.op( n = "union_pair:write" );
						led.l.throw_at = -1;
						vs[i].visit( [&]( auto &v ) {
							if constexpr( std::is_same_v<std::remove_cvref_t<decltype( v )>, Str> )
								v = str( x );
							else
								v = Tracked( x );
						} );
						ms[i].x = x;
					}
					break;
				}
			} catch( vf::injected const & ) {
				threw = true;
				ms = before;
				// a failed store leaves the old value or nothing
				if( vs[i].which( ) == 2 )
					ms[i] = { };
			}
			led.l.throw_at = -1;
			std::string lab = std::string( n ) + ( threw ? "(threw)" : "" );
			size_t live = 0;
			bool all = true;
			for( size_t q = 0; q < N; ++q ) {
				if( not ms[q].known ) {
					all = false;
					continue;
				}
				U const &v = vs[q];
				c.require_eq( ( lab + ":which" ).c_str( ), static_cast<int>( v.which( ) ), ms[q].k );
				int got_k = 2, got_x = 0;
				auto vis = [&]( auto const &z ) {
					if constexpr( std::is_same_v<std::remove_cvref_t<decltype( z )>, Str> ) {
						got_k = 1;
						got_x = static_cast<int>( z.size( ) ) - 30;
						if( z != str( got_x ) )
							got_x = -1;
					} else {
						got_k = 0;
						got_x = z.get( );
					}
					return 5;
				};
				bool th = false;
				int ret = 0;
				try {
					ret = r.coin( ) ? v.visit( vis ) : vs[q].visit( vis );
				} catch( daw::visit_null_union_pair_exception const & ) {
					th = true;
				}
				c.require_eq( ( lab + ":visit-throws" ).c_str( ), th, ms[q].k == 2 );
				c.require_eq( ( lab + ":visit-result" ).c_str( ), ret, th ? 0 : 5 );
				c.require_eq( ( lab + ":visit-alternative" ).c_str( ), got_k, ms[q].k );
				c.require_eq( ( lab + ":visit-value" ).c_str( ), got_x, ms[q].x );
				if( ms[q].k == 0 )
					++live;
			}
			if( all )
				c.require_eq( ( lab + ":live" ).c_str( ), led.l.live.size( ), live );
			led.ok( c, lab.c_str( ) );
		}
	}
	led.check_empty( c, "union_pair" );
}

// ---- validated ---------------------------------------------------------
struct ShortEnough {
	bool operator( )( std::string const &s ) const { return s.size( ) < 20; }
};
struct Even {
	bool operator( )( int const &v ) const { return v % 2 == 0; }
};
struct TrackedEven {
	bool operator( )( Tracked const &v ) const { return v.get( ) % 2 == 0; }
};
template<typename V, typename T, typename Get, typename Ok, typename Make>
static void validated_history( vf::Case &c, Get get, Ok ok, Make make, int start ) {
	auto &r = c.rng;
	V v( make( start ) );
	V w( make( start ) );
	int m = start, mw = start;
	size_t steps = 3 + r.below( 20 );
	for( size_t k = 0; k < steps; ++k ) {
		int x = static_cast<int>( r.below( 40 ) );
		bool th = false;
		char const *n = "?";
		try {
			switch( r.below( 7 ) ) {
			case 0: {
				c.op( n = "validated:assign(const &)" );
				T const t = make( x );
				v = t;
				m = x;
				break;
			}
			case 1: {
				c.op( n = "validated:assign(&&)" );
				T t = make( x );
				v = std::move( t );
				m = x;
				break;
			}
			case 2: {
				c.op( n = "validated:construct" );
				T t = make( x );
				V q( t );
				c.require_eq( "validated:construct:value", get( *q ), x );
				v = q;
				m = x;
				break;
			}
			case 3: {
				c.op( n = "validated:construct(&&)" );
				V q( make( x ) );
				v = std::move( q );
				m = x;
				break;
			}
			case 4: {
				c.op( n = "validated:in_place" );
				V q( std::in_place, make( x ) );
				v = q;
				m = x;
				break;
			}
			case 5:
				c.op( n = "validated:copy" );
				w = v;
				mw = m;
				x = 0;
				break;
			case 6: {
				c.op( n = "validated:move-out" );
				V q( v );
				T t = std::move( q ).get( );
				c.require_eq( "validated:move-out", get( t ), m );
				x = 0;
				break;
			}
			}
		} catch( std::out_of_range const & ) {
			th = true;
		}
		c.require_eq( vf::cat( n, ":rejects" ).c_str( ), th, not ok( x ) );
		c.require_eq( vf::cat( n, ":get" ).c_str( ), get( static_cast<V const &>( v ).get( ) ), m );
		c.require_eq( vf::cat( n, ":*" ).c_str( ), get( *v ), m );
		c.require_eq( vf::cat( n, ":->" ).c_str( ), get( *v.operator->( ) ), m );
		T const &cv = v;
		c.require_eq( vf::cat( n, ":convert" ).c_str( ), get( cv ), m );
		c.require_eq( vf::cat( n, ":other" ).c_str( ), get( *w ), mw );
	}
}
VF_FAMILY( validated, 2000, 40000 ) {
	c.ctx( "validated" );
	c.nontrivial( c.idx );
	auto even = []( int x ) { return x % 2 == 0; };
	switch( c.idx % 3 ) {
	case 0:
		validated_history<daw::validated<int, Even>, int>( c, []( int x ) { return x; }, even, []( int x ) { return x; }, 4 );
		break;
	case 1:
		validated_history<daw::validated<std::string, ShortEnough>, std::string>(
		  c, []( std::string const &s ) { return static_cast<int>( s.size( ) ); }, []( int x ) { return x < 20; },
		  []( int x ) { return std::string( static_cast<size_t>( x ), 'q' ); }, 3 );
		break;
	default: {
		vf::LedgerScope led;
		validated_history<daw::validated<Tracked, TrackedEven>, Tracked>(
		  c, []( Tracked const &t ) { return t.get( ); }, even, []( int x ) { return Tracked( x ); }, 6 );
		led.check_empty( c, "validated" );
		break;
	}
	}
}
VF_MAIN( )
