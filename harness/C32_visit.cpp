// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// C32: visit / visit_nt / get_nt for variants of every size, variant_cast, overload, lift,
// visit_as, poly_var and any_if, against what std::variant itself reports.
#include <limits>
#include <memory>
#include <daw/daw_any_if.h>
#include <daw/daw_overload.h>
#include <daw/daw_poly_var.h>
#include <daw/daw_variant_cast.h>
#include <daw/daw_visit.h>
#include <daw/daw_visit_as.h>
#include "vf.h"
#include "vf_types.h"
#include <any>
#include <array>
#include <cstring>
#include <map>
#include <string>
#include <variant>
#include <vector>

namespace {
	template<std::size_t I>
	struct Alt {
		static constexpr std::size_t id = I;
		int v = 0;
	};
	// what one call of the visitor saw
	struct Seen {
		std::size_t id = 9999;
		int v = 0;
		void const *where = nullptr;
		bool is_const = false;
		int calls = 0;
	};
	struct Rec {
		Seen &s;
		template<typename A>
		std::size_t operator( )( A &a ) const {
			++s.calls;
			s.id = std::remove_const_t<A>::id;
			s.v = a.v;
			s.where = &a;
			s.is_const = std::is_const_v<A>;
			return s.id * 10 + 1;
		}
		template<typename A>
		std::size_t operator( )( A &&a ) const
		  requires( not std::is_lvalue_reference_v<A> )
		{
			return ( *this )( static_cast<A &>( a ) );
		}
	};
	struct Thrower {
		int &calls;
		template<typename A>
		int operator( )( A && ) const {
			++calls;
			throw vf::injected{ };
		}
	};

	// a variant of someone else: found through argument dependent get_if, with its own npos
	template<typename... Ts>
	struct OtherVariant {
		static constexpr int variant_npos = -7;
		int idx = variant_npos;
		std::tuple<Ts...> all{ };
		constexpr int index( ) const {
			return idx;
		}
	};
	template<std::size_t I, typename... Ts>
	auto *get_if( OtherVariant<Ts...> *v ) {
		return v->idx == (int)I ? &std::get<I>( v->all ) : nullptr;
	}
	template<std::size_t I, typename... Ts>
	auto const *get_if( OtherVariant<Ts...> const *v ) {
		return v->idx == (int)I ? &std::get<I>( v->all ) : nullptr;
	}
	// and one that only has get
	template<typename... Ts>
	struct GetVariant {
		unsigned idx = 0;
		std::tuple<Ts...> all{ };
		unsigned index( ) const {
			return idx;
		}
	};
	template<std::size_t I, typename... Ts>
	auto &get( GetVariant<Ts...> &v ) {
		if( v.idx != I )
			throw std::bad_variant_access{ };
		return std::get<I>( v.all );
	}
	template<std::size_t I, typename... Ts>
	auto const &get( GetVariant<Ts...> const &v ) {
		if( v.idx != I )
			throw std::bad_variant_access{ };
		return std::get<I>( v.all );
	}

	template<typename V>
	void check_visit( vf::Case &c, V &var, std::size_t idx, int val, void const *where ) {
		auto same = [&]( char const *l, Seen const &s, std::size_t r, bool cst ) {
			VF_TRUE( c, l, s.calls == 1 and s.id == idx and s.v == val and s.where == where and s.is_const == cst and
			               r == idx * 10 + 1 );
			c.count( "visits", 1 );
		};
		V const &cv = var;
		{
			Seen s;
			auto r = daw::visit( var, Rec{ s } );
			same( "visit", s, r, false );
		}
		{
			Seen s;
			auto r = daw::visit_nt( cv, Rec{ s } );
			same( "visit_nt of const", s, r, true );
		}
		if( c.rng.chance( 1, 2 ) ) {
			Seen s;
			auto r = daw::visit_nt( var, Rec{ s } );
			same( "visit_nt", s, r, false );
		} else {
			Seen s;
			auto r = daw::visit( cv, Rec{ s } );
			same( "visit of const", s, r, true );
		}
		{
			Seen s;
			long r = daw::visit<long>( var, Rec{ s } );
			same( "visit with a result type", s, (std::size_t)r, false );
		}
		{
			Seen s;
			double r = daw::visit_nt<double>( cv, Rec{ s } );
			same( "visit_nt with a result type", s, (std::size_t)r, true );
		}
		{
			Seen s;
			Rec rec{ s };
			auto r = daw::visit( std::move( var ), rec );
			VF_TRUE( c, "visit of an rvalue", s.calls == 1 and s.id == idx and s.v == val and s.where == where and r == idx * 10 + 1 );
		}
		int calls = 0;
		bool threw = false;
		try {
			(void)daw::visit( var, Thrower{ calls } );
		} catch( vf::injected const & ) { threw = true; }
		VF_TRUE( c, "an exception of the visitor passes through", threw and calls == 1 );
	}

	template<std::size_t... Is>
	auto make_std( std::index_sequence<Is...>, std::size_t i, int val ) {
		using V = std::variant<Alt<Is>...>;
		V v;
		( ( Is == i ? (void)v.template emplace<Is>( Alt<Is>{ val } ) : (void)0 ), ... );
		return v;
	}
	template<std::size_t N>
	void std_sized( vf::Case &c, std::size_t i, int val ) {
		auto v = make_std( std::make_index_sequence<N>{ }, i, val );
		void const *where = std::visit( []( auto &a ) -> void const * { return &a; }, v );
		check_visit( c, v, i, val, where );
	}
	template<std::size_t... Is>
	void other_sized( vf::Case &c, std::index_sequence<Is...>, std::size_t i, int val ) {
		{
			OtherVariant<Alt<Is>...> v;
			v.idx = (int)i;
			void const *where = nullptr;
			( ( Is == i ? (void)( std::get<Is>( v.all ).v = val, where = &std::get<Is>( v.all ) )
			            : (void)( std::get<Is>( v.all ).v = val + 1 ) ),
			  ... );
			check_visit( c, v, i, val, where );
			v.idx = decltype( v )::variant_npos;
			bool bad = false;
			Seen s;
			try {
				(void)daw::visit( v, Rec{ s } );
			} catch( daw::bad_variant_access const & ) { bad = true; }
			VF_TRUE( c, "empty variant with its own npos", bad and s.calls == 0 );
			bad = false;
			try {
				(void)daw::visit<int>( v, Rec{ s } );
			} catch( daw::bad_variant_access const & ) { bad = true; }
			VF_TRUE( c, "empty variant with its own npos and a result type", bad and s.calls == 0 );
		}
		{
			GetVariant<Alt<Is>...> v;
			v.idx = (unsigned)i;
			void const *where = nullptr;
			( ( Is == i ? (void)( std::get<Is>( v.all ).v = val, where = &std::get<Is>( v.all ) ) : (void)0 ), ... );
			Seen s;
			auto r = daw::visit( v, Rec{ s } );
			VF_TRUE( c, "variant that only has get",
			         s.calls == 1 and s.id == i and s.v == val and s.where == where and r == i * 10 + 1 );
		}
	}
	// the cheaper subset, for the sizes in between
	template<std::size_t N>
	void std_sized_few( vf::Case &c, std::size_t i, int val ) {
		auto v = make_std( std::make_index_sequence<N>{ }, i, val );
		void const *where = std::visit( []( auto &a ) -> void const * { return &a; }, v );
		Seen s;
		auto r = daw::visit( v, Rec{ s } );
		VF_TRUE( c, "visit", s.calls == 1 and s.id == i and s.v == val and s.where == where and r == i * 10 + 1 );
		c.count( "visits", 1 );
	}
	using SizedFn = void ( * )( vf::Case &, std::size_t, int );
	struct Entry {
		std::size_t n;
		SizedFn fn;
	};
	constexpr Entry sizes[] = {
#define E( N ) { N, std_sized<N> }
#define F( N ) { N, std_sized_few<N> }
	  E( 1 ),  E( 2 ),  E( 3 ),  E( 4 ),  E( 5 ),  E( 6 ),  E( 7 ),  E( 8 ),  E( 9 ),  E( 10 ), E( 11 ),
	  E( 12 ), E( 13 ), E( 14 ), E( 15 ), E( 16 ), E( 17 ), E( 18 ), F( 19 ), F( 20 ), F( 21 ), F( 22 ),
	  F( 23 ), F( 24 ), F( 25 ), F( 26 ), F( 27 ), F( 28 ), F( 29 ), F( 30 ), F( 31 ), E( 32 ), F( 33 ),
	  F( 34 ), F( 35 ), F( 44 ), F( 48 ), F( 49 ) };
#undef E
#undef F

	struct ThrowCopy {
		int v = 0;
		ThrowCopy( ) = default;
		explicit ThrowCopy( int x )
		  : v( x ) {}
		ThrowCopy( ThrowCopy const & ) {
			throw vf::injected{ };
		}
		ThrowCopy &operator=( ThrowCopy const & ) {
			throw vf::injected{ };
		}
	};

	int fn_int( int x ) {
		return x * 3 + 1;
	}
	double fn_double( double x ) {
		return x / 2;
	}
	std::string fn_string( std::string const &s, int n ) {
		return s + std::to_string( n );
	}

	struct Base {
		int b = 0;
		Base( ) = default;
		explicit Base( int x )
		  : b( x ) {}
		virtual ~Base( ) = default;
		virtual int kind( ) const = 0;
		virtual void bump( int n ) {
			b += n;
		}
	};
	struct Extra {
		int pad[3] = { 1, 2, 3 };
		virtual ~Extra( ) = default; // takes offset 0 of D2
	};
	struct D1 : Base {
		vf::Tracked t;
		explicit D1( int x = 0 )
		  : Base( x )
		  , t( x ) {}
		int kind( ) const override {
			return 1;
		}
	};
	struct D2 : Extra, Base {
		std::string s;
		explicit D2( int x = 0 )
		  : Base( x )
		  , s( 30, (char)( 'a' + ( (unsigned)x % 26 ) ) ) {}
		int kind( ) const override {
			return 2;
		}
		void bump( int n ) override {
			b -= n;
		}
	};
	struct D3 : Base {
		std::vector<int> v;
		explicit D3( int x = 0 )
		  : Base( x )
		  , v( 3, x ) {}
		int kind( ) const override {
			return 3;
		}
	};
} // namespace

VF_FAMILY( every_size, 4000, 60000 ) {
	auto const &e = sizes[c.idx % std::size( sizes )];
	std::size_t i = c.rng.below( e.n );
	int val = c.rng.edgy<int>( );
	c.ctx( vf::cat( "alternatives ", e.n, " index ", i ) );
	e.fn( c, i, val );
	c.nontrivial( e.n * 64 + i );
}

VF_FAMILY( every_alternative, 20, 40 ) {
	for( auto const &e : sizes )
		for( std::size_t i = 0; i < e.n; ++i ) {
			c.ctx( vf::cat( "alternatives ", e.n, " index ", i ) );
			e.fn( c, i, (int)c.rng.below( 1000 ) );
			c.nontrivial( e.n * 64 + i );
		}
}

VF_FAMILY( other_variants, 1000, 20000 ) {
	switch( c.idx % 5 ) {
	case 0: other_sized( c, std::make_index_sequence<1>{ }, 0, (int)c.rng.below( 100 ) ); break;
	case 1: other_sized( c, std::make_index_sequence<3>{ }, c.rng.below( 3 ), (int)c.rng.below( 100 ) ); break;
	case 2: other_sized( c, std::make_index_sequence<11>{ }, c.rng.below( 11 ), (int)c.rng.below( 100 ) ); break;
	case 3: other_sized( c, std::make_index_sequence<16>{ }, c.rng.below( 16 ), (int)c.rng.below( 100 ) ); break;
	default: other_sized( c, std::make_index_sequence<19>{ }, c.rng.below( 19 ), (int)c.rng.below( 100 ) ); break;
	}
	c.nontrivial( c.rng.next( ) );
}

VF_FAMILY( visitors, 3000, 40000 ) {
	using V = std::variant<int, double, std::string, int>;
	int iv = c.rng.edgy<int>( );
	V v;
	auto which = c.rng.below( 4 );
	double dv = (double)iv / 4;
	std::string sv( c.rng.below( 40 ), 'q' );
	switch( which ) {
	case 0: v.emplace<0>( iv ); break;
	case 1: v.emplace<1>( dv ); break;
	case 2: v.emplace<2>( sv ); break;
	default: v.emplace<3>( iv );
	}
	c.op( "several visitors" );
	int ni = 0, nd = 0, ns = 0;
	auto r = daw::visit(
	  v, [&]( int x ) { ++ni; return vf::cat( "i", x ); }, [&]( double x ) { ++nd; return vf::cat( "d", x ); },
	  [&]( std::string const &x ) { ++ns; return vf::cat( "s", x ); } );
	auto want = which == 1 ? vf::cat( "d", dv ) : which == 2 ? vf::cat( "s", sv ) : vf::cat( "i", iv );
	VF_EQ( c, "result of the matching visitor", r, want );
	VF_TRUE( c, "only the matching visitor ran", ni == ( which % 3 == 0 ) and nd == ( which == 1 ) and ns == ( which == 2 ) );
	c.op( "function pointers" );
	std::variant<int, double> v2;
	if( c.rng.coin( ) )
		v2 = iv % 1000;
	else
		v2 = dv;
	double fr = daw::visit<double>( v2, fn_int, fn_double );
	VF_EQ( c, "function visitors", fr, v2.index( ) == 0 ? (double)fn_int( iv % 1000 ) : fn_double( dv ) );
	c.op( "mutating visitor" );
	daw::visit(
	  v, []( int &x ) { x = 17; }, []( double &x ) { x = 17; }, []( std::string &x ) { x = "17"; } );
	VF_EQ( c, "index kept", v.index( ), which );
	VF_TRUE( c, "change is in the variant", which == 1   ? std::get<1>( v ) == 17
	                                        : which == 2 ? std::get<2>( v ) == "17"
	                                        : which == 0 ? std::get<0>( v ) == 17
	                                                     : std::get<3>( v ) == 17 );
	c.op( "reference result" );
	std::variant<int, std::array<int, 3>> v3;
	if( c.rng.coin( ) )
		v3 = iv;
	else
		v3 = std::array<int, 3>{ 1, 2, iv };
	int &ref = daw::visit_nt<int &>(
	  v3, []( int &x ) -> int & { return x; }, []( std::array<int, 3> &x ) -> int & { return x[2]; } );
	VF_EQ( c, "reference result value", ref, iv );
	VF_TRUE( c, "reference result object", &ref == ( v3.index( ) == 0 ? std::get_if<0>( &v3 ) : &std::get<1>( v3 )[2] ) );
	c.op( "get_nt" );
	if( v3.index( ) == 0 )
		VF_TRUE( c, "get_nt", &daw::get_nt<0>( v3 ) == std::get_if<0>( &v3 ) );
	else
		VF_TRUE( c, "get_nt", &daw::get_nt<1>( std::as_const( v3 ) ) == std::get_if<1>( &v3 ) );
	c.op( "value category" );
	{
		// moved out of an rvalue, and only out of an rvalue
		using Owned = std::variant<std::unique_ptr<int>, int, std::string, std::unique_ptr<int>>;
		std::string text( 40, 'z' );
		auto owned = [&]( std::size_t at ) {
			switch( at ) {
			case 0: return Owned( std::in_place_index<0>, new int( iv ) );
			case 1: return Owned( std::in_place_index<1>, 3 );
			case 2: return Owned( std::in_place_index<2>, text );
			default: return Owned( std::in_place_index<3>, new int( iv ) );
			}
		};
		auto at = c.rng.below( 4 );
		auto o = owned( at );
		auto how = []( auto &&x ) {
			using X = decltype( x );
			return ( std::is_lvalue_reference_v<X> ? 1 : 2 ) + ( std::is_const_v<std::remove_reference_t<X>> ? 10 : 0 );
		};
		VF_EQ( c, "category of lvalue", daw::visit( o, how ), 1 );
		VF_EQ( c, "category of const lvalue", daw::visit_nt( std::as_const( o ), how ), 11 );
		VF_EQ( c, "category of rvalue", daw::visit( std::move( o ), how ), 2 );
		VF_EQ( c, "category of rvalue, visit_nt", daw::visit_nt( std::move( o ), how ), 2 );
		VF_EQ( c, "category of rvalue, result type", daw::visit<long>( std::move( o ), how ), 2L );
		VF_EQ( c, "category of rvalue, visit_nt result type", daw::visit_nt<long>( std::move( o ), how ), 2L );
		VF_EQ( c, "category of const rvalue", daw::visit( std::move( std::as_const( o ) ), how ), 12 );
		VF_EQ( c, "index after looking", o.index( ), at );
		std::unique_ptr<int> taken;
		std::string took;
		int other = 0;
		daw::visit( std::move( o ), [&]( std::unique_ptr<int> &&p ) { taken = std::move( p ); },
		            [&]( std::string &&s ) { took = std::move( s ); }, [&]( int && ) { ++other; } );
		VF_EQ( c, "index after a move", o.index( ), at );
		if( at == 0 or at == 3 ) {
			VF_TRUE( c, "moved pointer", taken and *taken == iv and took.empty( ) and other == 0 );
			VF_TRUE( c, "left empty", at == 0 ? not std::get<0>( o ) : not std::get<3>( o ) );
		} else if( at == 2 ) {
			VF_TRUE( c, "moved text", took == text and not taken and other == 0 );
		} else {
			VF_TRUE( c, "exact", other == 1 and not taken and took.empty( ) );
		}
		auto o2 = owned( 0 );
		static_assert( std::is_same_v<decltype( daw::get_nt<0>( std::move( o2 ) ) ), std::unique_ptr<int> &&> );
		static_assert( std::is_same_v<decltype( daw::get_nt<0>( o2 ) ), std::unique_ptr<int> &> );
		static_assert(
		  std::is_same_v<decltype( daw::get_nt<0>( std::as_const( o2 ) ) ), std::unique_ptr<int> const &> );
		std::unique_ptr<int> got = daw::get_nt<0>( std::move( o2 ) );
		VF_TRUE( c, "get_nt of an rvalue", got and *got == iv and not std::get<0>( o2 ) );
		OtherVariant<std::unique_ptr<int>, int> ov;
		ov.idx = 0;
		std::get<0>( ov.all ) = std::make_unique<int>( iv );
		std::unique_ptr<int> from_other = daw::get_nt<0>( std::move( ov ) );
		VF_TRUE( c, "get_nt of another variant's rvalue", from_other and *from_other == iv and not std::get<0>( ov.all ) );
		VF_EQ( c, "category of another variant's rvalue", daw::visit( std::move( ov ), how ), 2 );
	}
	c.nontrivial( vf::mix( which, (unsigned)iv ) );
}
VF_FAMILY( valueless, 1000, 10000 ) {
	std::variant<int, std::string, ThrowCopy> v( 3 );
	if( c.rng.coin( ) )
		v = std::string( 50, 'x' );
	ThrowCopy t;
	bool thrown = false;
	try {
		v.emplace<2>( t );
	} catch( vf::injected const & ) { thrown = true; }
	VF_TRUE( c, "valueless set up", thrown and v.valueless_by_exception( ) );
	int calls = 0;
	auto visitor = [&]( auto const & ) { ++calls; return 1; };
	auto bad = [&]( char const *l, auto f ) {
		c.op( l );
		bool b = false;
		try {
			(void)f( );
		} catch( std::bad_variant_access const & ) { b = true; }
		VF_TRUE( c, l, b and calls == 0 );
	};
	bad( "valueless visit", [&] { return daw::visit( v, visitor ); } );
	bad( "valueless const visit", [&] { return daw::visit( std::as_const( v ), visitor ); } );
	bad( "valueless rvalue visit", [&] { return daw::visit( std::move( v ), visitor ); } );
	bad( "valueless visit with result", [&] { return daw::visit<long>( v, visitor ); } );
	std::variant<int, double, ThrowCopy> w( 3 );
	try {
		w.emplace<2>( t );
	} catch( vf::injected const & ) {}
	bad( "valueless variant_cast", [&] { return daw::variant_cast<int>( w ); } );
	VF_TRUE( c, "valueless can_extract", not daw::can_extract<int>( w ) and not daw::can_extract<double>( w ) );
	v = 8;
	VF_EQ( c, "usable again", daw::visit( v, []( auto const &x ) {
		       if constexpr( std::is_same_v<int const &, decltype( x )> )
			       return x;
		       else
			       return -1;
	       } ),
	       8 );
	c.nontrivial( 1 );
}

VF_FAMILY( variant_casts, 3000, 40000 ) {
	using V = std::variant<int, double, std::string, unsigned char, std::vector<int>>;
	auto which = c.rng.below( 5 );
	int iv = (int)c.rng.below( 200 );
	V v;
	switch( which ) {
	case 0: v = iv; break;
	case 1: v = (double)iv + 0.5; break;
	case 2: v = std::string( (std::size_t)iv, 's' ); break;
	case 3: v = (unsigned char)iv; break;
	default: v = std::vector<int>{ iv, 2 };
	}
	V const &cv = v;
	auto attempt = [&]( auto f ) {
		using R = decltype( f( ) );
		std::optional<R> r;
		try {
			r = f( );
		} catch( std::bad_variant_access const & ) {}
		return r;
	};
	bool num = which == 0 or which == 1 or which == 3;
	auto same_int = [&]( char const *l, std::optional<int> r ) {
		VF_EQ( c, l, r.has_value( ), num );
		if( r )
			VF_EQ( c, l, *r, iv );
	};
	same_int( "cast to int", attempt( [&] { return daw::variant_cast<int>( v ); } ) );
	same_int( "cast const to int", attempt( [&] { return daw::variant_cast<int>( cv ); } ) );
	same_int( "cast rvalue to int", attempt( [&] { return daw::variant_cast<int>( V( v ) ); } ) );
	auto d = attempt( [&] { return daw::variant_cast<double>( cv ); } );
	VF_EQ( c, "cast to double holds", d.has_value( ), num );
	if( d )
		VF_EQ( c, "cast to double", *d, which == 1 ? iv + 0.5 : iv );
	auto s = attempt( [&] { return daw::variant_cast<std::string>( cv ); } );
	VF_EQ( c, "cast to string holds", s.has_value( ), which == 2 );
	if( s )
		VF_EQ( c, "cast to string", *s, std::get<2>( v ) );
	auto ve = attempt( [&] { return daw::variant_cast<std::vector<int>>( v ); } );
	VF_EQ( c, "cast to vector holds", ve.has_value( ), which == 4 );
	if( ve )
		VF_TRUE( c, "cast to vector", *ve == std::get<4>( v ) );
	VF_EQ( c, "can_extract int", daw::can_extract<int>( cv ), which == 0 );
	VF_EQ( c, "can_extract double", daw::can_extract<double>( v ), which == 1 );
	VF_EQ( c, "can_extract string", daw::can_extract<std::string>( v ), which == 2 );
	VF_EQ( c, "can_extract uchar", daw::can_extract<unsigned char>( cv ), which == 3 );
	VF_EQ( c, "can_extract vector", daw::can_extract<std::vector<int>>( std::move( v ) ), which == 4 );
	VF_EQ( c, "can_extract absent type", daw::can_extract<long>( cv ), false );
	VF_EQ( c, "index untouched", v.index( ), which );
	c.nontrivial( which * 1000 + (unsigned)iv );
}

VF_FAMILY( overloads, 2000, 30000 ) {
	vf::LedgerScope led;
	{
		int n = 0;
		int x = (int)c.rng.below( 1000 );
		vf::Tracked owned( x );
		auto by_int = [owned]( int v ) mutable { return owned.get( ) + v; };
		auto by_str = [&n]( std::string const &s ) mutable { ++n; return (int)s.size( ); };
		auto counting = [k = 0]( double ) mutable { return ++k; };
		auto o = daw::overload( by_int, by_str, counting, &fn_string );
		VF_EQ( c, "int overload", o( 5 ), x + 5 );
		VF_EQ( c, "string overload", o( std::string( 7, 'x' ) ), 7 );
		VF_EQ( c, "stateful overload 1", o( 1.0 ), 1 );
		VF_EQ( c, "stateful overload 2", o( 1.0 ), 2 );
		VF_EQ( c, "function pointer overload", o( std::string( "ab" ), x ), fn_string( "ab", x ) );
		auto o2 = o;
		VF_EQ( c, "copy has its own state", o2( 1.0 ), 3 );
		VF_EQ( c, "copy has its own state (source)", o( 1.0 ), 3 );
		VF_EQ( c, "visitor ran once", n, 1 );
		auto moved = std::move( o2 );
		VF_EQ( c, "moved overload", moved( 5 ), x + 5 );
		std::variant<int, std::string, double> v;
		auto w = c.rng.below( 3 );
		if( w == 0 )
			v = 4;
		else if( w == 1 )
			v = std::string( "abc" );
		else
			v = 2.5;
		VF_EQ( c, "overload as visitor", daw::visit( v, moved ), w == 0 ? x + 4 : w == 1 ? 3 : 4 );
		VF_EQ( c, "lift", daw::lift<fn_int>( x ), fn_int( x ) );
		VF_EQ( c, "lift pointer", daw::lift<&fn_double>( x ), fn_double( x ) );
		VF_EQ( c, "lift with two", daw::lift<fn_string>( "p", x ), fn_string( "p", x ) );
		auto mix = daw::overload( daw::lift<fn_int>, daw::lift<fn_string> );
		VF_EQ( c, "lifted overload 1", mix( x ), fn_int( x ) );
		VF_EQ( c, "lifted overload 2", mix( std::string( "z" ), x ), fn_string( "z", x ) );
		c.nontrivial( (unsigned)x );
	}
	led.check_empty( c, "overload objects" );
}

VF_FAMILY( visit_as_family, 3000, 40000 ) {
	struct Two {
		std::uint16_t a, b;
	};
	std::uint32_t bits = (std::uint32_t)c.rng.next( );
	float f;
	std::memcpy( &f, &bits, 4 );
	if( f != f )
		f = 1.5f; // a signalling NaN may be quietened when copied
	std::memcpy( &bits, &f, 4 );
	std::uint32_t mask = (std::uint32_t)c.rng.next( );
	c.op( "mutating" );
	std::uint32_t got = 0;
	float g = f;
	auto r = daw::visit_as<std::uint32_t>( g, [&]( std::uint32_t &u ) {
		got = u;
		u ^= mask & 0x807F'FFFFU;
		return u;
	} );
	std::uint32_t after;
	std::memcpy( &after, &g, 4 );
	VF_EQ( c, "saw the representation", got, bits );
	VF_EQ( c, "returned", r, bits ^ ( mask & 0x807F'FFFFU ) );
	VF_EQ( c, "written back", after, bits ^ ( mask & 0x807F'FFFFU ) );
	c.op( "void visitor" );
	std::uint32_t n = bits;
	int calls = 0;
	daw::visit_as<Two>( n, [&]( Two &t ) {
		++calls;
		std::swap( t.a, t.b );
	} );
	VF_EQ( c, "halves swapped", n, ( bits >> 16 ) | ( bits << 16 ) );
	VF_EQ( c, "called once", calls, 1 );
	c.op( "const" );
	std::uint32_t const cn = bits;
	auto sum = daw::visit_as<Two>( cn, []( Two const &t ) { return (unsigned)t.a + t.b; } );
	VF_EQ( c, "const visit", sum, ( bits & 0xFFFF ) + ( bits >> 16 ) );
	VF_EQ( c, "const untouched", cn, bits );
	c.op( "throwing visitor" );
	std::uint32_t m = bits;
	bool threw = false;
	try {
		daw::visit_as<Two>( m, []( Two &t ) {
			t.a = (std::uint16_t)( t.a + 1 );
			throw vf::injected{ };
		} );
	} catch( vf::injected const & ) { threw = true; }
	VF_TRUE( c, "nothing written when the visitor throws", threw and m == bits );
	c.nontrivial( bits );
}

VF_FAMILY( poly_vars, 2000, 30000 ) {
	vf::LedgerScope led;
	{
		using P = daw::poly_var<Base, D1, D2, D3>;
		struct Model {
			int kind, b;
		};
		P p;
		Model m{ 1, 0 };
		std::vector<P> kept;
		std::vector<Model> kept_m;
		auto check = [&]( char const *l, P &q, Model const &k ) {
			P const &cq = q;
			VF_TRUE( c, l, q->kind( ) == k.kind and ( *q ).b == k.b and cq->kind( ) == k.kind and ( *cq ).b == k.b );
			VF_TRUE( c, "arrow and star are one object", &*q == q.operator->( ) and &*cq == cq.operator->( ) and &*q == &*cq );
			auto *lo = reinterpret_cast<char *>( &q );
			auto *at = reinterpret_cast<char *>( &*q );
			VF_TRUE( c, "the object is inside", at >= lo and at < lo + sizeof( P ) );
			if( auto *d2 = dynamic_cast<D2 *>( &*q ) )
				VF_TRUE( c, "whole derived object", d2->pad[2] == 3 and d2->s.size( ) == 30 );
			if( auto *d3 = dynamic_cast<D3 *>( &*q ) )
				VF_TRUE( c, "whole derived object", d3->v.size( ) == 3 );
		};
		auto steps = 3 + c.rng.below( 12 );
		for( std::size_t i = 0; i < steps; ++i ) {
			int x = (int)c.rng.below( 500 );
			switch( c.rng.below( 8 ) ) {
			case 0: c.op( "= D1" ); p = D1( x ); m = { 1, x }; break;
			case 1: c.op( "= D2" ); p = D2( x ); m = { 2, x }; break;
			case 2: {
				c.op( "= lvalue D3" );
				D3 d( x );
				p = d;
				m = { 3, x };
				VF_EQ( c, "source kept", d.v.size( ), 3U );
			} break;
			case 3: c.op( "copy kept" ); kept.push_back( p ); kept_m.push_back( m ); break;
			case 4:
				if( not kept.empty( ) ) {
					c.op( "assign from kept" );
					auto k = c.rng.below( kept.size( ) );
					p = kept[k];
					m = kept_m[k];
				}
				break;
			case 5: {
				c.op( "bump" );
				p->bump( x );
				m.b += m.kind == 2 ? -x : x;
			} break;
			case 6: {
				c.op( "construct" );
				P q( D2{ x } );
				Model k{ 2, x };
				check( "constructed", q, k );
				p = std::move( q );
				m = k;
			} break;
			default: c.op( "write" ); ( *p ).b = x; m.b = x;
			}
			check( "current", p, m );
			for( std::size_t k = 0; k < kept.size( ); ++k )
				check( "kept copy", kept[k], kept_m[k] );
			c.count( "poly_var_steps", 1 );
		}
		c.nontrivial( vf::mix( (unsigned)m.b, kept.size( ) ) );
	}
	led.check_empty( c, "poly_var objects" );
}

VF_FAMILY( any_ifs, 2000, 20000 ) {
	std::array<bool, 4> a{ c.rng.chance( 3, 4 ), c.rng.chance( 3, 4 ), c.rng.chance( 3, 4 ), c.rng.chance( 3, 4 ) };
	std::vector<int> ran;
	auto p = [&]( int i ) { return [&ran, &a, i] { ran.push_back( i ); return a[(std::size_t)i]; }; };
	bool r = daw::any_if( p( 0 ), p( 1 ), p( 2 ), p( 3 ) );
	bool all = a[0] and a[1] and a[2] and a[3];
	VF_EQ( c, "holds exactly when all of them hold", r, all );
	std::vector<int> want;
	for( int i = 0; i < 4; ++i ) {
		want.push_back( i );
		if( not a[(std::size_t)i] )
			break;
	}
	VF_TRUE( c, "in order, stops at the first that fails", ran == want );
	ran.clear( );
	bool const b2 = a[2];
	VF_EQ( c, "mixed", daw::any_if( p( 0 ), a[1], b2, (int)a[3] * 4 ), all );
	VF_EQ( c, "mixed ran", ran.size( ), 1U );
	VF_EQ( c, "nothing", daw::any_if( ), true );
	c.nontrivial( (unsigned)( a[0] + 2 * a[1] + 4 * a[2] + 8 * a[3] ) );
}
VF_MAIN( )
