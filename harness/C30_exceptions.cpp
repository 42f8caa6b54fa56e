// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <limits>
#include <memory>
#include <vector>
#include <string>
#include <daw/daw_exception.h>
#include <daw/daw_contract.h>
#include <daw/daw_ensure.h>
#include <daw/daw_check_exceptions.h>
#include "vf.h"
#include <list>
#include <new>
#include <thread>

namespace de = daw::exception;

// what came out of a call: nothing, or the most derived type and its text
struct Out {
	std::string type = "-", what;
	bool operator==( Out const & ) const = default;
};
static std::ostream &operator<<( std::ostream &o, Out const &x ) {
	return o << x.type << "(" << x.what << ")";
}
struct TwoArg : std::exception {
	int a;
	std::string b;
	TwoArg( int x, std::string y ) : a( x ), b( std::move( y ) ) {}
	TwoArg( char const *m ) : a( 0 ), b( m ) {}
	char const *what( ) const noexcept override {
		return b.c_str( );
	}
};
template<typename F>
static Out run( F f ) {
	auto as = []( char const *t, std::exception const &e ) { return Out{ t, e.what( ) }; };
	try {
		f( );
	} catch( std::exception const &e ) {
		auto &ti = typeid( e );
		return as( ti == typeid( std::runtime_error )  ? "runtime"
		           : ti == typeid( std::out_of_range ) ? "range"
		           : ti == typeid( std::length_error ) ? "length"
		           : ti == typeid( std::bad_alloc )    ? "alloc"
		           : ti == typeid( TwoArg )            ? "two"
		           : ti == typeid( daw::daw_contract_violation ) ? "contract"
		                                                : ti.name( ),
		           e );
	} catch( int i ) { return Out{ "int", std::to_string( i ) }; } catch( ... ) {
		return Out{ "other", "" };
	}
	return { };
}
// a condition that counts how often it was looked at
struct Cond {
	bool v;
	int *seen;
	explicit operator bool( ) const {
		++*seen;
		return v;
	}
};
static std::string g_msg;
#define THROWS( call, bad, ty, msg )                                              \
	do {                                                                            \
		c.op( #call );                                                                \
		Out got = run( [&] { call; } );                                               \
		VF_EQ( c, #call, got, ( ( bad ) ? Out{ ty, msg } : Out{ } ) );                \
		++n_calls;                                                                    \
		n_thrown += ( bad );                                                          \
	} while( false )

VF_FAMILY( conditions, 3000, 40000 ) {
	long n_calls = 0, n_thrown = 0;
	bool const b = c.rng.coin( );
	bool mb = b;
	int const i = c.rng.coin( ) ? 0 : c.rng.edgy<int>( );
	int mi = i;
	auto up = c.rng.coin( ) ? std::make_unique<int>( 1 ) : nullptr;
	std::string const msg( c.rng.below( 40 ), 'm' );
	std::string const none;
	bool const u = not up, z = i == 0;
	std::string const da = std::bad_alloc{ }.what( );
	int seen = 0;
	Cond cd{ b, &seen };

	THROWS( de::daw_throw_on_false( b ), not b, "runtime", "" );
	THROWS( de::daw_throw_on_false( mb, msg ), not b, "runtime", msg );
	THROWS( de::daw_throw_on_false( i, "text" ), z, "runtime", "text" );
	THROWS( de::daw_throw_on_false( up, msg ), u, "runtime", msg );
	THROWS( de::daw_throw_on_false( up ), u, "runtime", "" );
	THROWS( de::daw_throw_on_false<std::out_of_range>( mi, msg ), z, "range", msg );
	THROWS( de::daw_throw_on_false<std::bad_alloc>( b ), not b, "alloc", da );
	THROWS( de::daw_throw_on_false<TwoArg>( b, 5, msg ), not b, "two", msg );
	seen = 0;
	THROWS( de::daw_throw_on_false( cd, msg ), not b, "runtime", msg );
	VF_EQ( c, "condition read once", seen, 1 );

	THROWS( de::daw_throw_on_true( b ), b, "runtime", "" );
	THROWS( de::daw_throw_on_true( mb ), b, "runtime", "" );
	THROWS( de::daw_throw_on_true( mb, msg ), b, "runtime", msg );
	THROWS( de::daw_throw_on_true( i, "text" ), not z, "runtime", "text" );
	THROWS( de::daw_throw_on_true( up ), not u, "runtime", "" );
	THROWS( de::daw_throw_on_true( up, msg ), not u, "runtime", msg );
	THROWS( de::daw_throw_on_true<std::length_error>( mi, msg ), not z, "length", msg );
	THROWS( de::daw_throw_on_true<std::bad_alloc>( b ), b, "alloc", da );
	THROWS( de::daw_throw_on_true<TwoArg>( b, 5, msg ), b, "two", msg );
	seen = 0;
	THROWS( de::daw_throw_on_true( cd, msg ), b, "runtime", msg );
	VF_EQ( c, "condition read once", seen, 1 );

	THROWS( de::Assert( b, msg ), not b, "runtime", msg );
	THROWS( de::Assert( up, "text" ), u, "runtime", "text" );
	THROWS( de::Assert<TwoArg>( i, 3, msg ), z, "two", msg );

	THROWS( de::precondition_check<std::out_of_range>( b, msg ), not b, "range", msg );
	THROWS( de::precondition_check<std::bad_alloc>( up ), u, "alloc", da );
	THROWS( de::precondition_check<TwoArg>( i, 1, msg ), z, "two", msg );
	THROWS( de::precondition_check<TwoArg>( cd, 1, msg ), not b, "two", msg );
	THROWS( de::postcondition_check<std::out_of_range>( b, msg ), not b, "range", msg );
	THROWS( de::postcondition_check<std::bad_alloc>( up ), u, "alloc", da );
	THROWS( de::postcondition_check<TwoArg>( i, 1, msg ), z, "two", msg );
#if not defined( NDEBUG ) or defined( DEBUG )
	THROWS( DAW_DBG_PRECONDITION_CHECK( std::out_of_range, b, msg ), not b, "range", msg );
#endif
	THROWS( de::dbg_throw_on_false( mb, msg ), not b, "runtime", msg );
	THROWS( de::dbg_throw_on_false( i, msg ), z, "runtime", msg );
	THROWS( de::dbg_throw_on_false( b ), not b, "runtime", "" );
	THROWS( de::dbg_throw_on_false<std::bad_alloc>( b ), not b, "alloc", da );
	THROWS( de::dbg_throw_on_false<TwoArg>( up, 1, msg ), u, "two", msg );
	THROWS( de::DebugAssert( b, msg ), not b, "runtime", msg );
	THROWS( de::DebugAssert<std::out_of_range>( up, msg ), u, "range", msg );
	THROWS( de::dbg_throw_on_true( b, msg ), b, "runtime", msg );
	THROWS( de::dbg_throw_on_true<TwoArg>( b, 1, msg ), b, "two", msg );

	int obj = 7;
	int *p = c.rng.coin( ) ? &obj : nullptr;
	int const *cp = p;
	bool const np = p == nullptr;
	THROWS( de::daw_throw_on_null( p, msg ), np, "runtime", msg );
	THROWS( de::daw_throw_on_null( cp, msg ), np, "runtime", msg );
	THROWS( de::daw_throw_on_null<std::out_of_range>( cp, msg ), np, "range", msg );
	THROWS( de::daw_throw_on_null<std::out_of_range>( p, msg ), np, "range", msg );
	THROWS( de::daw_throw_on_null<std::bad_alloc>( p ), np, "alloc", da );
	THROWS( de::dbg_throw_on_null( cp, msg ), np, "runtime", msg );
	THROWS( de::dbg_throw_on_null<TwoArg>( p, 1, msg ), np, "two", msg );

	c.count( "calls", n_calls );
	c.count( "exceptions", n_thrown );
	c.nontrivial( (unsigned)b * 8 + u * 4 + z * 2 + np + 16 * msg.size( ) );
}

VF_FAMILY( returning, 3000, 40000 ) {
	long n_calls = 0, n_thrown = 0;
	bool const b = c.rng.coin( );
	std::string const msg( c.rng.below( 30 ), 'r' );
	int v = c.rng.edgy<int>( );
	int const cv = v;
	int *where = nullptr;
	bool rb = false;
	auto chk = [&]( char const *l, bool good ) {
		if( good )
			VF_TRUE( c, l, where == &v );
		where = nullptr;
	};
	THROWS( where = &de::daw_throw_on_false_or_return( v, b, msg ), not b, "runtime", msg );
	chk( "false: same object", b );
	THROWS( where = &de::daw_throw_on_true_or_return( v, b, msg ), b, "runtime", msg );
	chk( "true: same object", not b );
	int seen = 0;
	THROWS( where = &de::daw_throw_on_true_or_return<std::out_of_range>( v, Cond{ b, &seen }, msg ), b, "range", msg );
	chk( "true: same object", not b );
	THROWS( where = &de::daw_throw_on_false_or_return<std::out_of_range>( v, Cond{ b, &seen }, msg ), not b, "range", msg );
	chk( "false: same object", b );
	VF_EQ( c, "condition read once", seen, 2 );
	THROWS( where = &de::dbg_throw_on_true_or_return( v, b, msg ), b, "runtime", msg );
	chk( "dbg true: same object", not b );
	int *p = c.rng.coin( ) ? &v : nullptr;
	bool const np = p == nullptr;
	THROWS( where = de::daw_throw_on_null_or_return( p, msg ), np, "runtime", msg );
	chk( "null: same pointer", not np );
	THROWS( where = de::dbg_throw_on_null_or_return<std::out_of_range>( p, msg ), np, "range", msg );
	chk( "dbg null: same pointer", not np );
	int r = cv ^ 1;
	THROWS( r = de::dbg_throw_on_false_or_return( v, b, msg ), not b, "runtime", msg );
	VF_EQ( c, "dbg false: value", r, b ? cv : cv ^ 1 );
	// temporaries are passed through, moved
	std::unique_ptr<int> q;
	THROWS( q = de::daw_throw_on_false_or_return( std::make_unique<int>( cv ), b, msg ), not b, "runtime", msg );
	VF_TRUE( c, "moved value", b ? *q == cv : not q );
	q.reset( );
	THROWS( q = de::daw_throw_on_true_or_return( std::make_unique<int>( cv ), b, msg ), b, "runtime", msg );
	VF_TRUE( c, "moved value", b ? not q : *q == cv );
	// the forms with only a condition
	rb = false;
	THROWS( rb = de::daw_throw_on_false_or_return( b, msg ), not b, "runtime", msg );
	VF_EQ( c, "returns true", rb, b );
	THROWS( rb = de::daw_throw_on_false_or_return( b, "text" ), not b, "runtime", "text" );
	rb = true;
	THROWS( rb = de::daw_throw_on_true_or_return( b, "text" ), b, "runtime", "text" );
	VF_EQ( c, "returns false", rb, b );
	rb = true;
	THROWS( rb = de::daw_throw_on_true_or_return<std::out_of_range>( b, msg ), b, "range", msg );
	VF_EQ( c, "returns false", rb, b );
	rb = false;
	THROWS( rb = de::dbg_throw_on_false_or_return( b, msg ), not b, "runtime", msg );
	VF_EQ( c, "returns true", rb, b );
	rb = true;
	THROWS( rb = de::dbg_throw_on_true_or_return( b, "text" ), b, "runtime", "text" );
	VF_EQ( c, "returns the test", rb, b );
	VF_EQ( c, "value untouched", v, cv );
	THROWS( de::daw_throw_value_on_true( v ), v != 0, "int", std::to_string( v ) );
	THROWS( de::daw_throw_value_on_true( int( v ) ), v != 0, "int", std::to_string( v ) );
	THROWS( de::daw_throw_value_on_false( v ), v == 0, "int", "0" );
	THROWS( de::daw_throw_value_on_false( int( b ) ), not b, "int", "0" );
	c.count( "calls", n_calls );
	c.count( "exceptions", n_thrown );
	c.nontrivial( vf::mix( (unsigned)b * 2 + np, msg.size( ) ) );
}

VF_FAMILY( throwing, 1000, 10000 ) {
	long n_calls = 0, n_thrown = 0;
	std::string const msg( c.rng.below( 60 ), 'q' );
	int k = c.rng.edgy<int>( );
	THROWS( de::daw_throw( ), true, "runtime", "" );
	THROWS( de::daw_throw( msg ), true, "runtime", msg );
	THROWS( de::daw_throw<std::bad_alloc>( ), true, "alloc", std::bad_alloc{ }.what( ) );
	THROWS( ( de::daw_throw<TwoArg>( k, msg ) ), true, "two", msg );
	THROWS( de::daw_throw<TwoArg>( ), true, "two", "" );
	THROWS( de::debug_throw( msg ), true, "runtime", msg );
	THROWS( de::daw_throw_not_implemented( ), true, "runtime", "Method not implemented" );
	THROWS( de::daw_throw_unexpected_enum( ), true, "runtime", "Unknown/Unexpected enum" );
	THROWS( de::daw_throw_not_implemented<std::out_of_range>( ), true, "range", "Method not implemented" );
	THROWS( de::throw_length_error( msg ), true, "length", msg );
	THROWS( de::throw_out_of_range( msg ), true, "range", msg );
	THROWS( DAW_THROW_OR_TERMINATE( std::out_of_range, msg ), true, "range", msg );
	THROWS( DAW_THROW_OR_TERMINATE_NA( std::bad_alloc ), true, "alloc", std::bad_alloc{ }.what( ) );
	TwoArg seen( 0, "" );
	try {
		de::daw_throw<TwoArg>( k, msg );
	} catch( TwoArg const &t ) { seen = t; }
	VF_TRUE( c, "arguments arrive", seen.a == k and seen.b == msg );

	auto ep = de::make_exception_ptr<TwoArg>( k, msg );
	VF_REQ( c, "make_exception_ptr", ep != nullptr, true );
	THROWS( std::rethrow_exception( ep ), true, "two", msg );
	std::string txt = msg;
	auto ep2 = de::make_exception_ptr<std::out_of_range>( txt );
	txt = "gone";
	THROWS( std::rethrow_exception( ep2 ), true, "range", msg );

	int ran = 0, arg = 0;
	bool t = c.rng.coin( );
	c.op( "no_exception" );
	auto kind = c.rng.below( 4 );
	auto got = run( [&] {
		de::no_exception(
		  [&]( int x, std::unique_ptr<int> y ) {
			  ++ran;
			  arg = x + *y;
			  if( t ) {
				  switch( kind ) {
				  case 0: throw TwoArg( "x" );
				  case 1: throw std::out_of_range( "x" );
				  case 2: throw 5;
				  default: throw std::unique_ptr<int>( new int( 3 ) );
				  }
			  }
		  },
		  3, std::make_unique<int>( 4 ) );
	} );
	VF_EQ( c, "no_exception swallows", got, Out{ } );
	VF_TRUE( c, "no_exception calls once", ran == 1 and arg == 7 );

	std::vector<int> v( c.rng.below( 10 ) );
	for( auto &x : v )
		x = (int)c.rng.below( 3 );
	std::list<int> l( v.begin( ), v.end( ) );
	bool any2 = false, all_lt2 = true;
	std::size_t first2 = v.size( );
	for( std::size_t i = 0; i < v.size( ); ++i )
		if( v[i] == 2 ) {
			any2 = true;
			all_lt2 = false;
			first2 = std::min( first2, i );
		}
	std::size_t asked = 0;
	auto is2 = [&]( int x ) {
		++asked;
		return x == 2;
	};
	THROWS( de::assert_all_false( v, msg, is2 ), any2, "runtime", msg );
	VF_EQ( c, "predicate calls", asked, any2 ? first2 + 1 : v.size( ) );
	THROWS( de::assert_all_false<std::out_of_range>( l, msg, is2 ), any2, "range", msg );
	THROWS( de::assert_all_true( v, msg, []( int x ) { return x < 2; } ), not all_lt2, "runtime", msg );
	THROWS( de::assert_all_true<std::length_error>( l, "text", []( int x ) { return x < 2; } ), not all_lt2, "length", "text" );
	c.count( "calls", n_calls );
	c.count( "exceptions", n_thrown );
	c.nontrivial( vf::mix( v.size( ), msg.size( ) ) );
}

// the checks that end the process
VF_FAMILY( aborting, 40, 200 ) {
	bool const b = c.idx % 2;
	int const i = b ? c.rng.edgy<int>( ) | 1 : 0;
	auto ends = [&]( char const *l, auto f, bool dbg = false ) {
		c.op( l );
		auto e = vf::outcome( f );
#if defined( NDEBUG )
		if( dbg and not b )
			return;
#endif
		VF_TRUE( c, l, e == ( b ? vf::End::returned : vf::End::aborted ) );
		c.count( "process_outcomes", 1 );
	};
	auto quiet = [] { (void)freopen( "/dev/null", "w", stderr ); };
	ends( "precondition_check", [&] { de::precondition_check( b ); } );
	ends( "precondition_check message", [&] { de::precondition_check( i, "m" ); } );
	ends( "postcondition_check", [&] { de::postcondition_check( i ); } );
	ends( "dbg_precondition_check", [&] { de::dbg_precondition_check( b, "m" ); }, true );
	ends( "dbg_precondition_check type", [&] { de::dbg_precondition_check<std::out_of_range>( b, "m" ); }, true );
	ends( "dbg_postcondition_check", [&] { de::dbg_postcondition_check( b ); }, true );
	ends( "daw_ensure", [&] {
		quiet( );
		daw_ensure( b );
	} );
	ends( "daw_ensure expression", [&] {
		quiet( );
		daw_ensure( i != 0 and std::vector<int>{ i, 2 }.size( ) == 2 );
	} );
	ends( "daw_dbg_ensure", [&] {
		quiet( );
		daw_dbg_ensure( b );
	}, true );
	c.nontrivial( c.idx % 8 );
}
VF_FAMILY( ensure_evaluates_once, 200, 2000 ) {
	int n = 0;
	c.op( "daw_ensure" );
	daw_ensure( ++n > 0 );
	daw_ensure( [&] { return ++n, true; }( ) );
	VF_EQ( c, "evaluated once", n, 2 );
	if( c.rng.coin( ) )
		daw_ensure( n == 2 );
	else
		daw_ensure( n >= 2 );
	c.nontrivial( c.idx % 4 );
}

// ------------------------------------------------------------------- contract
struct NonNeg {
	template<typename T>
	constexpr bool operator( )( T const &v ) const {
		return v >= T{ };
	}
};
struct Even {
	constexpr bool operator( )( int v ) const {
		return v % 2 == 0;
	}
};
struct Small {
	constexpr bool operator( )( int v ) const {
		return v < 1000;
	}
};
struct NotEmpty {
	bool operator( )( std::string const &s ) const {
		return not s.empty( );
	}
};
struct NotNull {
	bool operator( )( int *p ) const {
		return p != nullptr;
	}
};
struct handler_error {
	int id;
};
VF_FAMILY( contracts, 4000, 60000 ) {
	int v = c.rng.coin( ) ? (int)c.rng.below( 3000 ) - 1000 : c.rng.edgy<int>( );
	bool p = v >= 0, e = v % 2 == 0, s = v < 1000;
	auto refused = [&]( char const *l, auto f, bool ok ) {
		c.op( l );
		bool bad = false;
		try {
			f( );
		} catch( daw::daw_contract_violation const & ) { bad = true; }
		VF_EQ( c, l, bad, not ok );
		c.count( bad ? "contracts_refused" : "contracts_held", 1 );
	};
	refused( "one condition", [&] { daw::contract<int, NonNeg> k( v ); VF_EQ( c, "value", *k, v ); }, p );
	refused( "three conditions", [&] {
		daw::contract<int, NonNeg, Even, Small> k( v );
		int const &r = k;
		VF_TRUE( c, "value", r == v and k.get( ) == v and &r == &k.get( ) and &*k == &r );
		VF_EQ( c, "extract", k.extract( ), v );
	}, p and e and s );
	refused( "no condition", [&] { daw::contract<int> k( v ); VF_EQ( c, "value", k.get( ), v ); }, true );
	if( p ) {
		daw::contract<int, NonNeg> k( v );
		refused( "converted", [&] { daw::contract<int, Even, Small> q = k; VF_EQ( c, "value", *q, v ); }, e and s );
		refused( "add_condition", [&] { auto q = k.add_condition( Even{ }, Small{ } ); VF_EQ( c, "value", *q, v ); }, e and s );
		refused( "add_precondition_t", [&] {
			daw::contract<int, NonNeg>::add_precondition_t<Even> q( v );
			VF_EQ( c, "value", *q, v );
		}, e );
		VF_EQ( c, "source unchanged", *k, v );
		auto k2 = k;
		VF_EQ( c, "copy", *k2, v );
	}
	std::string str( c.rng.below( 3 ) * 20, 'x' );
	refused( "string", [&] {
		daw::contract<std::string, NotEmpty> k( str );
		VF_TRUE( c, "string value", *k == str and k->size( ) == str.size( ) );
		VF_EQ( c, "string extract", k.extract( ), str );
	}, not str.empty( ) );
	int *ptr = c.rng.coin( ) ? &v : nullptr;
	refused( "pointer", [&] {
		daw::contract<int *, NotNull> k( ptr );
		VF_TRUE( c, "pointer value", *k == &v and k.operator->( ) == &v );
	}, ptr != nullptr );
	// a replaced handler, per thread
	c.op( "handler" );
	auto old = daw::contract_failure_handler;
	auto h = [&] { throw handler_error{ v }; };
	daw::contract_failure_handler = h;
	int got = 0, hits = 0;
	try {
		daw::contract<int, NonNeg, Even, Small> k( v );
	} catch( handler_error const &x ) {
		got = x.id;
		++hits;
	}
	daw::contract_failure_handler = old;
	VF_EQ( c, "handler called on violation", hits, p and e and s ? 0 : 1 );
	VF_EQ( c, "handler saw", got, hits ? v : 0 );
	refused( "default handler back", [&] { daw::contract<int, Even> k( v ); }, e );
	if( c.rng.chance( 1, 40 ) ) {
		vf::Suspend quiet{ }; // a thread's own allocations
		daw::contract_failure_handler = h;
		bool other = false;
		std::thread t( [&] {
			int bad = -1;
			asm volatile( "" : "+r"( bad ) );
			try {
				daw::contract<int, NonNeg> k( bad );
			} catch( daw::daw_contract_violation const & ) { other = true; } catch( ... ) {}
		} );
		t.join( );
		daw::contract_failure_handler = old;
		VF_TRUE( c, "another thread keeps its handler", other );
	}
	c.nontrivial( vf::mix( (unsigned)v, str.size( ) ) );
}
constexpr daw::contract<int, NonNeg, Even> cx( 42 );
static_assert( *cx == 42 and cx.get( ) == 42 );
VF_MAIN( )
