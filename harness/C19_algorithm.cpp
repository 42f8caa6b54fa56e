// C19: daw::algorithm against std algorithms and direct definitions.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include <daw/daw_algorithm.h>
#include <daw/daw_algorithm_cx.h>
#include <daw/daw_swap.h>
#include <daw/algorithms/daw_array_compare.h>
#include <daw/algorithms/daw_algorithm_accumulate.h>
#include <daw/algorithms/daw_algorithm_adjacent_find.h>
#include <daw/algorithms/daw_algorithm_copy.h>
#include <daw/algorithms/daw_algorithm_copy_n.h>
#include <daw/algorithms/daw_algorithm_find.h>
#include <daw/algorithms/daw_algorithm_find_transform.h>
#include <daw/algorithms/daw_algorithm_partial_sum.h>

#include "vf.h"

#include <algorithm>
#include <compare>
#include <functional>
#include <list>
#include <map>
#include <numeric>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace {
	namespace A = daw::algorithm;

	// an element with an identity so that "which of the equals" is observable
	struct El {
		int k = 0;
		int id = -1;
		friend bool operator==( El const &a, El const &b ) {
			return a.k == b.k;
		}
		friend bool operator!=( El const &a, El const &b ) {
			return a.k != b.k;
		}
		friend bool operator<( El const &a, El const &b ) {
			return a.k < b.k;
		}
		friend bool operator>( El const &a, El const &b ) {
			return b.k < a.k;
		}
		friend El operator+( El const &a, El const &b ) {
			return El{ a.k + b.k, -2 };
		}
	};

	std::vector<El> elements( vf::Case &c, std::size_t max, int distinct ) {
		std::vector<El> r( c.rng.len( max ) );
		int n = 0;
		for( auto &e : r ) {
			e.k = static_cast<int>( c.rng.below( static_cast<unsigned>( distinct ) ) );
			e.id = n++;
		}
		if( c.rng.chance( 1, 4 ) ) {
			std::stable_sort( r.begin( ), r.end( ) );
		} else if( c.rng.chance( 1, 6 ) ) {
			std::stable_sort( r.begin( ), r.end( ), std::greater<>{ } );
		}
		return r;
	}
	using Ids = std::vector<std::pair<int, int>>;
	template<typename It>
	Ids ids( It f, It l ) {
		Ids r;
		for( ; f != l; ++f ) {
			r.emplace_back( f->k, f->id );
		}
		return r;
	}
	template<typename C>
	Ids ids( C const &c ) {
		return ids( c.begin( ), c.end( ) );
	}
	std::string show( std::vector<El> const &v ) {
		std::string r;
		for( auto const &e : v ) {
			r += vf::cat( e.k, " " );
		}
		return r;
	}
	std::uint64_t hash_of( std::vector<El> const &v, std::uint64_t h ) {
		for( auto const &e : v ) {
			h = vf::mix( h, static_cast<std::uint64_t>( e.k ) );
		}
		return vf::mix( h, v.size( ) );
	}

	// The element sequence as an exactly sized heap block (bounds violations are
	// detected), as a list (bidirectional) and as a vector.
	struct Src {
		std::vector<El> v;
		vf::Exact<El> ex;
		std::list<El> l;
		explicit Src( std::vector<El> a )
		  : v( std::move( a ) )
		  , ex( v.begin( ), v.size( ) )
		  , l( v.begin( ), v.end( ) ) {}
		El *b( ) {
			return ex.data( );
		}
		El *e( ) {
			return ex.data( ) + v.size( );
		}
	};
	// an output block with room for exactly n elements
	struct Out {
		std::vector<El> init;
		vf::Exact<El> ex;
		std::size_t n;
		explicit Out( std::size_t n_ )
		  : init( n_, El{ -7, -7 } )
		  , ex( init.begin( ), n_ )
		  , n( n_ ) {}
		El *b( ) {
			return ex.data( );
		}
		Ids all( ) {
			return ids( ex.data( ), ex.data( ) + n );
		}
	};

	template<typename It, typename B>
	std::size_t at( B b, It i ) {
		return static_cast<std::size_t>( std::distance( b, i ) );
	}
} // namespace

// the functions that only look
VF_FAMILY( queries, 30000, 600000 ) {
	int const distinct = 2 + static_cast<int>( c.rng.below( 5 ) );
	Src s( elements( c, 9, distinct ) );
	Src t( c.rng.coin( ) ? elements( c, 9, distinct ) : [&] {
		auto w = s.v;
		if( not w.empty( ) and c.rng.coin( ) ) {
			c.rng.pick( w ).k += 1;
		}
		if( c.rng.chance( 1, 4 ) ) {
			w.resize( c.rng.below( w.size( ) + 1 ) );
		}
		return w;
	}( ) );
	auto const &v = s.v;
	auto const &w = t.v;
	El const x{ static_cast<int>( c.rng.below( static_cast<unsigned>( distinct ) + 1U ) ), 1000 };
	c.ctx( "first <", show( v ), "> second <", show( w ), "> value ", x.k );
	std::size_t const n = v.size( );
	int calls = 0;
	auto const is_x = [&]( El const &e ) {
		++calls;
		return e.k == x.k;
	};
	auto const lt_x = [&]( El const &e ) {
		++calls;
		return e.k < x.k;
	};
	auto const p_eq = [&]( El const &e ) {
		return e.k == x.k;
	};
	auto const p_lt = [&]( El const &e ) {
		return e.k < x.k;
	};
	auto const b = s.b( ), e = s.e( );
	auto const lb = s.l.begin( ), le = s.l.end( );
#define POS( label, expr, want ) VF_EQ( c, label, at( b, expr ), static_cast<std::size_t>( ( want ) - v.begin( ) ) )
#define LPOS( label, expr, want ) VF_EQ( c, label, at( lb, expr ), static_cast<std::size_t>( ( want ) - v.begin( ) ) )
	POS( "find", A::find( b, e, x ), std::find( v.begin( ), v.end( ), x ) );
	LPOS( "find list", A::find( lb, le, x ), std::find( v.begin( ), v.end( ), x ) );
	calls = 0;
	auto const fi = std::find_if( v.begin( ), v.end( ), p_eq );
	POS( "find_if", A::find_if( b, e, is_x ), fi );
	VF_EQ( c, "find_if calls", static_cast<std::size_t>( calls ), std::min( n, static_cast<std::size_t>( fi - v.begin( ) ) + 1 ) );
	POS( "find_if_not", A::find_if_not( b, e, is_x ), std::find_if_not( v.begin( ), v.end( ), p_eq ) );
	POS( "find_first_of pred", A::find_first_of( b, e, is_x ), fi );
	POS( "find_first_of range", A::find_first_of( b, e, t.b( ), t.e( ) ), std::find_first_of( v.begin( ), v.end( ), w.begin( ), w.end( ) ) );
	POS( "adjacent_find", A::adjacent_find( b, e, std::equal_to<>{ } ), std::adjacent_find( v.begin( ), v.end( ) ) );
	POS( "adjacent_find less", A::adjacent_find( b, e, std::less<>{ } ), std::adjacent_find( v.begin( ), v.end( ), std::less<>{ } ) );
	POS( "search", A::search( b, e, t.b( ), t.e( ) ), std::search( v.begin( ), v.end( ), w.begin( ), w.end( ) ) );
	{
		std::size_t const f = c.rng.below( n + 1 );
		std::size_t const len = c.rng.below( n - f + 1 );
		POS( "search sub range", A::search( b, e, b + f, b + f + len ), std::search( v.begin( ), v.end( ), v.begin( ) + static_cast<long>( f ), v.begin( ) + static_cast<long>( f + len ) ) );
		LPOS( "search list", A::search( lb, le, b + f, b + f + len ), std::search( v.begin( ), v.end( ), v.begin( ) + static_cast<long>( f ), v.begin( ) + static_cast<long>( f + len ) ) );
	}
	POS( "max_element", A::max_element( b, e ), std::max_element( v.begin( ), v.end( ) ) );
	POS( "max_element greater", A::max_element( b, e, std::greater<>{ } ), std::max_element( v.begin( ), v.end( ), std::greater<>{ } ) );
	{
		auto const want = std::minmax_element( v.begin( ), v.end( ) );
		auto const got = A::minmax_element( b, e );
		POS( "minmax_element min", got.min_element, want.first );
		POS( "minmax_element max", got.max_element, want.second );
		auto const lgot = A::minmax_element( lb, le, std::greater<>{ } );
		auto const gw = std::minmax_element( v.begin( ), v.end( ), std::greater<>{ } );
		LPOS( "minmax_element list min", lgot.min_element, gw.first );
		LPOS( "minmax_element list max", lgot.max_element, gw.second );
	}
	POS( "is_sorted_until", A::is_sorted_until( b, e ), std::is_sorted_until( v.begin( ), v.end( ) ) );
	LPOS( "is_sorted_until list", A::is_sorted_until( lb, le, std::greater<>{ } ), std::is_sorted_until( v.begin( ), v.end( ), std::greater<>{ } ) );
	VF_EQ( c, "is_sorted", A::is_sorted( b, e ), std::is_sorted( v.begin( ), v.end( ) ) );
	VF_EQ( c, "is_sorted greater", A::is_sorted( lb, le, std::greater<>{ } ), std::is_sorted( v.begin( ), v.end( ), std::greater<>{ } ) );
	{ // the first element that is followed by a smaller one
		auto const u = std::is_sorted_until( v.begin( ), v.end( ) );
		POS( "find_unsorted", A::find_unsorted( b, e ), u == v.end( ) ? u : u - 1 );
	}
	VF_EQ( c, "all_of", A::all_of( b, e, lt_x ), std::all_of( v.begin( ), v.end( ), p_lt ) );
	VF_EQ( c, "any_of", A::any_of( b, e, lt_x ), std::any_of( v.begin( ), v.end( ), p_lt ) );
	VF_EQ( c, "none_of", A::none_of( b, e, lt_x ), std::none_of( v.begin( ), v.end( ), p_lt ) );
	auto const cnt = static_cast<std::size_t>( std::count_if( v.begin( ), v.end( ), p_eq ) );
	calls = 0;
	VF_EQ( c, "count_if", A::count_if( b, e, is_x ), cnt );
	VF_EQ( c, "count_if calls", static_cast<std::size_t>( calls ), n );
	VF_EQ( c, "contains", A::contains( b, e, x ), cnt > 0 );
	VF_EQ( c, "contains greater", A::contains( b, e, x, std::less<>{ } ), std::any_of( v.begin( ), v.end( ), p_lt ) );
	VF_EQ( c, "contains_if", A::contains_if( lb, le, is_x ), cnt > 0 );
	std::size_t const ix = static_cast<std::size_t>( fi - v.begin( ) );
	VF_TRUE( c, "find_index_if", A::find_index_if( b, e, is_x ) == ( cnt ? std::optional<std::size_t>( ix ) : std::nullopt ) );
	VF_TRUE( c, "find_index", A::find_index( lb, le, x ) == ( cnt ? std::optional<std::size_t>( ix ) : std::nullopt ) );
	VF_EQ( c, "find_index_of", A::find_index_of( b, e, x ), ix );
	VF_EQ( c, "find_index_of_if", A::find_index_of_if( lb, le, is_x ), ix );
	{
		std::size_t len = 0;
		while( len < n and p_lt( v[len] ) ) {
			++len;
		}
		VF_EQ( c, "find_last_of", at( b, A::find_last_of( b, e, lt_x ) ), len == 0 ? n : len - 1 );
		auto const r = A::find_first_range_of( b, e, is_x );
		std::size_t stop = ix;
		while( stop < n and p_eq( v[stop] ) ) {
			++stop;
		}
		VF_EQ( c, "find_first_range_of first", at( b, r.first ), ix );
		VF_EQ( c, "find_first_range_of second", at( b, r.second ), stop );
	}
	{
		auto const r = A::find_some( b, e, p_eq, p_lt );
		auto const want = std::find_if( v.begin( ), v.end( ), [&]( El const &q ) { return q.k <= x.k; } );
		POS( "find_some", r.position, want );
		VF_EQ( c, "find_some 0", r.results[0], want != v.end( ) and p_eq( *want ) );
		VF_EQ( c, "find_some 1", r.results[1], want != v.end( ) and p_lt( *want ) );
		auto const o = A::find_one_of( b, e, p_lt, p_eq );
		POS( "find_one_of", o.position, want );
		VF_EQ( c, "find_one_of index", o.index, want == v.end( ) ? static_cast<std::size_t>( -1 ) : p_lt( *want ) ? 0U : 1U );
	}
	{
		auto const r = A::find_transform( b, e, []( El const &q ) { return El{ q.k * 2, q.id }; }, [&]( El const &q ) { return q.k == 2 * x.k; } );
		POS( "find_transform", r.iterator, fi );
		VF_EQ( c, "find_transform found", static_cast<bool>( r ), cnt > 0 );
		if( cnt > 0 ) {
			VF_TRUE( c, "find_transform value", r.value->k == 2 * x.k and r.value->id == fi->id );
		}
	}
	VF_EQ( c, "satisfies_one", A::satisfies_one( x, []( El const & ) { return false; }, p_eq ), true );
	VF_EQ( c, "satisfies_all", A::satisfies_all( x, p_eq, p_lt ), false );
	VF_EQ( c, "satisfies_one range", A::satisfies_one( b, e, p_eq, p_lt ), std::any_of( v.begin( ), v.end( ), [&]( El const &q ) { return q.k <= x.k; } ) );
	VF_EQ( c, "satisfies_all range", A::satisfies_all( b, e, p_lt, []( El const &q ) { return q.k != 1; } ),
	       std::all_of( v.begin( ), v.end( ), [&]( El const &q ) { return q.k < x.k and q.k != 1; } ) );
	VF_EQ( c, "all_equal", A::all_equal<>{ }( b, e ), std::adjacent_find( v.begin( ), v.end( ), std::not_equal_to<>{ } ) == v.end( ) );

	// two ranges
	bool const eq = std::equal( v.begin( ), v.end( ), w.begin( ), w.end( ) );
	VF_EQ( c, "equal", A::equal( b, e, t.b( ), t.e( ) ), eq );
	VF_EQ( c, "equal list", A::equal( lb, le, t.b( ), t.e( ), std::equal_to<>{ } ), eq );
	VF_EQ( c, "not_equal", A::not_equal( b, e, t.b( ), t.e( ) ), not eq );
	if( w.size( ) >= n ) {
		bool const peq = std::equal( v.begin( ), v.end( ), w.begin( ) );
		VF_EQ( c, "equal 3", A::equal( b, e, t.b( ) ), peq );
		VF_EQ( c, "not_equal 3", A::not_equal( b, e, t.b( ) ), not peq );
		int want = 5;
		for( std::size_t i = 0; i < n; ++i ) {
			want = ( want * 3 + ( v[i].k - 2 * w[i].k ) ) % 10007;
		}
		VF_EQ( c, "map_reduce", A::map_reduce( b, e, t.b( ), 5, []( int a, int q ) { return ( a * 3 + q ) % 10007; }, []( El const &p, El const &q ) { return p.k - 2 * q.k; } ), want );
		std::vector<int> seen, wseen;
		A::cartesian_product( [&]( El const &p, El const &q ) { seen.push_back( p.k * 100 + q.k ); }, b, e, t.b( ) );
		for( std::size_t i = 0; i < n; ++i ) {
			wseen.push_back( v[i].k * 100 + w[i].k );
		}
		VF_TRUE( c, "cartesian_product", seen == wseen );
		Out o( n );
		auto r = A::cartesian_product_map( []( El const &p, El const &q ) { return El{ p.k * 100 + q.k, 3 }; }, b, e, o.b( ), t.b( ) );
		VF_EQ( c, "cartesian_product_map end", at( o.b( ), r ), n );
		for( std::size_t i = 0; i < n; ++i ) {
			VF_EQ( c, "cartesian_product_map", o.b( )[i].k, wseen[i] );
		}
		Out o2( n );
		r = A::transform_many( b, e, t.b( ), o2.b( ), []( El const &p, El const &q ) { return El{ p.k * 100 + q.k, 3 }; } );
		VF_TRUE( c, "transform_many", o2.all( ) == o.all( ) and at( o2.b( ), r ) == n );
		{ // with more ranges
			auto const f3 = []( El const &p, El const &q, El const &z ) { return El{ p.k * 100 + q.k - 3 * z.k, 3 }; };
			auto const f4 = []( El const &p, El const &q, El const &y, El const &z ) { return El{ p.k * 100 + q.k - 3 * y.k + 7 * z.k, 3 }; };
			std::vector<int> w3, w4, s3;
			for( std::size_t i = 0; i < n; ++i ) {
				w3.push_back( v[i].k * 100 + w[i].k - 3 * v[n - 1 - i].k );
				w4.push_back( v[i].k * 100 + w[i].k - 3 * v[n - 1 - i].k + 7 * v[i].k );
			}
			std::vector<El> const back( v.rbegin( ), v.rend( ) );
			auto const same = [&]( char const *label, Out &o_, El *r_, std::vector<int> const &want_ ) {
				bool ok = at( o_.b( ), r_ ) == n;
				for( std::size_t i = 0; ok and i < n; ++i ) ok = o_.b( )[i].k == want_[i];
				VF_TRUE( c, label, ok );
			};
			Out a3( n ), a4( n ), t3( n ), t4( n );
			same( "cartesian_product_map 3", a3, A::cartesian_product_map( f3, b, e, a3.b( ), t.b( ), back.begin( ) ), w3 );
			same( "cartesian_product_map 4", a4, A::cartesian_product_map( f4, b, e, a4.b( ), t.b( ), back.begin( ), b ), w4 );
			same( "transform_many 3", t3, A::transform_many( b, e, t.b( ), back.begin( ), t3.b( ), f3 ), w3 );
			same( "transform_many 4", t4, A::transform_many( b, e, t.b( ), back.begin( ), b, t4.b( ), f4 ), w4 );
			A::cartesian_product( [&]( El const &p, El const &q, El const &z ) { s3.push_back( p.k * 100 + q.k - 3 * z.k ); }, b, e, t.b( ), back.begin( ) );
			VF_TRUE( c, "cartesian_product 3", s3 == w3 );
		}
		std::vector<int> o3( n );
		vf::Exact<int> e3( o3.begin( ), n );
		auto const r3 = A::map( b, static_cast<El *const &>( e ), t.b( ), e3.data( ), []( El const &p, El const &q ) { return p.k * 100 + q.k; } );
		VF_TRUE( c, "map 2", r3 == e3.data( ) + n and std::equal( wseen.begin( ), wseen.end( ), e3.data( ) ) );
	}
	VF_EQ( c, "lexicographical_compare", A::lexicographical_compare( b, e, t.b( ), t.e( ) ), std::lexicographical_compare( v.begin( ), v.end( ), w.begin( ), w.end( ) ) );
	VF_EQ( c, "lexicographical_compare greater", A::lexicographical_compare( lb, le, t.b( ), t.e( ), std::greater<>{ } ),
	       std::lexicographical_compare( v.begin( ), v.end( ), w.begin( ), w.end( ), std::greater<>{ } ) );
	VF_EQ( c, "compare_range", A::compare_range( b, e, t.b( ), t.e( ) ),
	       eq ? 0 : std::lexicographical_compare( v.begin( ), v.end( ), w.begin( ), w.end( ) ) ? -1 : 1 );

	// folds
	calls = 0;
	int want = 3;
	for( auto const &q : v ) {
		want = ( want * 5 + q.k ) % 10007;
	}
	auto const fold = [&]( int a, El const &q ) {
		++calls;
		return ( a * 5 + q.k ) % 10007;
	};
	VF_EQ( c, "accumulate", A::accumulate( b, e, 3, fold ), want );
	VF_EQ( c, "accumulate calls", static_cast<std::size_t>( calls ), n );
	VF_EQ( c, "accumulate sum", A::accumulate( lb, le, El{ 3, 0 } ).k, std::accumulate( v.begin( ), v.end( ), El{ 3, 0 } ).k );
	VF_EQ( c, "reduce", A::reduce( b, e, 3, fold ), want );
	VF_TRUE( c, "sources unchanged", ids( b, e ) == ids( v ) and ids( s.l ) == ids( v ) and ids( t.b( ), t.e( ) ) == ids( w ) );
	// sorted ranges
	{
		auto sv = v;
		std::stable_sort( sv.begin( ), sv.end( ) );
		Src o( sv );
		auto sw = w;
		std::stable_sort( sw.begin( ), sw.end( ) );
		VF_EQ( c, "lower_bound", at( o.b( ), A::lower_bound( o.b( ), o.e( ), x ) ), at( sv.begin( ), std::lower_bound( sv.begin( ), sv.end( ), x ) ) );
		VF_EQ( c, "lower_bound list", at( o.l.begin( ), A::lower_bound( o.l.begin( ), o.l.end( ), x ) ), at( sv.begin( ), std::lower_bound( sv.begin( ), sv.end( ), x ) ) );
		VF_EQ( c, "upper_bound", at( o.b( ), A::upper_bound( o.b( ), o.e( ), x ) ), at( sv.begin( ), std::upper_bound( sv.begin( ), sv.end( ), x ) ) );
		VF_EQ( c, "upper_bound list", at( o.l.begin( ), A::upper_bound( o.l.begin( ), o.l.end( ), x ) ), at( sv.begin( ), std::upper_bound( sv.begin( ), sv.end( ), x ) ) );
		if( not sv.empty( ) ) {
			auto const p = A::binary_search( o.b( ), o.e( ), x );
			bool const has = std::binary_search( sv.begin( ), sv.end( ), x );
			VF_EQ( c, "binary_search found", p != o.e( ), has );
			if( has ) {
				VF_EQ( c, "binary_search value", p->k, x.k );
			}
		}
		std::vector<El> wanted;
		std::set_intersection( sv.begin( ), sv.end( ), sw.begin( ), sw.end( ), std::back_inserter( wanted ) );
		Out r( wanted.size( ) );
		auto const p = A::set_intersection( o.b( ), o.e( ), sw.begin( ), sw.end( ), r.b( ) );
		VF_EQ( c, "set_intersection size", at( r.b( ), p ), wanted.size( ) );
		VF_TRUE( c, "set_intersection", r.all( ) == ids( wanted ) );
	}
	c.nontrivial( hash_of( v, hash_of( w, static_cast<std::uint64_t>( x.k ) ) ) );
	c.op( "queries" );
}

// the functions that write to an output range of exactly the needed size
VF_FAMILY( outputs, 30000, 600000 ) {
	int const distinct = 2 + static_cast<int>( c.rng.below( 5 ) );
	Src s( elements( c, 9, distinct ) );
	auto const &v = s.v;
	El const x{ static_cast<int>( c.rng.below( static_cast<unsigned>( distinct ) + 1U ) ), 1000 };
	c.ctx( "source <", show( v ), "> value ", x.k );
	std::size_t const n = v.size( );
	int calls = 0, tcalls = 0;
	auto const lt_x = [&]( El const &q ) {
		++calls;
		return q.k < x.k;
	};
	auto const tr = [&]( El const &q ) {
		++tcalls;
		return El{ q.k * 3 + 1, q.id };
	};
	std::vector<El> all_tr, some, some_tr;
	for( auto const &q : v ) {
		all_tr.push_back( El{ q.k * 3 + 1, q.id } );
		if( q.k < x.k ) {
			some.push_back( q );
			some_tr.push_back( all_tr.back( ) );
		}
	}
	auto const b = s.b( ), e = s.e( );
	auto const check = [&]( char const *label, Out &o, El *end, std::vector<El> const &want ) {
		VF_EQ( c, vf::cat( label, " end" ).c_str( ), at( o.b( ), end ), want.size( ) );
		VF_TRUE( c, vf::cat( label, " elements" ).c_str( ), o.all( ) == ids( want ) );
		VF_TRUE( c, vf::cat( label, " source" ).c_str( ), ids( b, e ) == ids( v ) );
	};
	{
		Out o( n );
		tcalls = 0;
		check( "transform", o, A::transform( b, e, o.b( ), tr ), all_tr );
		VF_EQ( c, "transform calls", static_cast<std::size_t>( tcalls ), n );
	}
	{
		std::vector<int> o( n );
		vf::Exact<int> ex( o.begin( ), n );
		auto const r = A::map( b, e, ex.data( ), []( El const &q ) { return q.k * 3 + 1; } );
		VF_TRUE( c, "map end", r == ex.data( ) + n );
		for( std::size_t i = 0; i < n; ++i ) {
			VF_EQ( c, "map", ex.data( )[i], all_tr[i].k );
		}
	}
	{
		Out o( n );
		check( "transform_it", o, A::transform_it( b, e, o.b( ), [&]( El const &q, El *it ) {
			       *it = tr( q );
			       return it + 1;
		       } ),
		       all_tr );
	}
	{
		Out o( some_tr.size( ) );
		calls = tcalls = 0;
		check( "transform_if", o, A::transform_if( b, e, o.b( ), lt_x, tr ), some_tr );
		VF_EQ( c, "transform_if predicate calls", static_cast<std::size_t>( calls ), n );
		VF_EQ( c, "transform_if calls", static_cast<std::size_t>( tcalls ), some.size( ) );
	}
	{
		Out o( some.size( ) );
		calls = 0;
		check( "copy_if", o, A::copy_if( s.l.begin( ), s.l.end( ), o.b( ), lt_x ), some );
		VF_EQ( c, "copy_if calls", static_cast<std::size_t>( calls ), n );
	}
	{
		Out o( n );
		check( "copy", o, A::copy( s.l.begin( ), s.l.end( ), o.b( ) ), v );
	}
	{
		Out o( n );
		check( "convert_copy", o, A::convert_copy<El>( s.l.begin( ), s.l.end( ), o.b( ) ), v );
	}
	{
		std::size_t const k = c.rng.below( n + 1 );
		std::vector<El> const pre( v.begin( ), v.begin( ) + static_cast<long>( k ) );
		std::vector<El> const pre_tr( all_tr.begin( ), all_tr.begin( ) + static_cast<long>( k ) );
		Out o( k );
		auto r = A::copy_n( b, o.b( ), k );
		check( "copy_n", o, r.output, pre );
		VF_EQ( c, "copy_n input", at( b, r.input ), k );
		Out o2( k );
		tcalls = 0;
		auto r2 = A::transform_n( b, o2.b( ), k, tr );
		check( "transform_n", o2, r2.output, pre_tr );
		VF_EQ( c, "transform_n input", at( b, r2.input ), k );
		VF_EQ( c, "transform_n calls", static_cast<std::size_t>( tcalls ), k );
		Out o3( k );
		auto r3 = A::transform_n( b, o3.b( ), k, []( El const &q, std::size_t i ) { return El{ q.k, static_cast<int>( i ) + 50 }; } );
		auto want = pre;
		for( std::size_t i = 0; i < k; ++i ) {
			want[i].id = static_cast<int>( i ) + 50;
		}
		check( "transform_n index", o3, r3.output, want );
		Out o4( k );
		check( "convert_copy_n", o4, A::convert_copy_n<El>( b, o4.b( ), k ), pre );
		Out o5( n );
		auto filled = o5.init;
		std::fill_n( filled.begin( ), k, x );
		VF_EQ( c, "fill_n end", at( o5.b( ), A::fill_n( o5.b( ), k, x ) ), k );
		VF_TRUE( c, "fill_n", o5.all( ) == ids( filled ) );
		A::fill( o5.b( ) + k, o5.b( ) + n, x );
		std::fill( filled.begin( ), filled.end( ), x );
		VF_TRUE( c, "fill", o5.all( ) == ids( filled ) );
	}
	{
		Out o( n );
		std::vector<El> want( n );
		std::partial_sum( v.begin( ), v.end( ), want.begin( ) );
		check( "partial_sum", o, A::partial_sum( b, e, o.b( ) ), want );
		Out o2( n );
		auto const op = []( El const &p, El const &q ) {
			return El{ ( p.k * 3 + q.k ) % 10007, q.id };
		};
		std::partial_sum( v.begin( ), v.end( ), want.begin( ), op );
		check( "partial_sum op", o2, A::partial_sum( s.l.begin( ), s.l.end( ), o2.b( ), op ), want );
		// in place
		Src o3( v );
		auto const r = A::partial_sum( o3.b( ), o3.e( ), o3.b( ), op );
		VF_TRUE( c, "partial_sum in place", r == o3.e( ) and ids( o3.b( ), o3.e( ) ) == ids( want ) );
	}
	{
		std::vector<int> a( n );
		vf::Exact<int> ea( a.begin( ), n );
		A::iota( ea.data( ), ea.data( ) + n, x.k );
		std::iota( a.begin( ), a.end( ), x.k );
		VF_TRUE( c, "iota", std::equal( a.begin( ), a.end( ), ea.data( ) ) );
		A::iota( ea.data( ), ea.data( ) + n, 2 * x.k, []( int &d, int q ) { d = -q; } );
		for( std::size_t i = 0; i < n; ++i ) {
			VF_EQ( c, "iota setter", ea.data( )[i], -( 2 * x.k + static_cast<int>( i ) ) );
		}
	}
	{ // moving strings
		std::vector<std::string> src, want;
		for( auto const &q : v ) {
			src.push_back( "a text that does not fit the small buffer " + std::to_string( q.k ) );
		}
		want = src;
		std::vector<std::string> dst( n );
		VF_TRUE( c, "move end", A::move( src.begin( ), src.end( ), dst.begin( ) ) == dst.end( ) );
		VF_TRUE( c, "move", dst == want );
		VF_TRUE( c, "move moves", std::all_of( src.begin( ), src.end( ), []( auto const &q ) { return q.empty( ); } ) );
		auto r = A::move_n( dst.begin( ), src.begin( ), n );
		VF_TRUE( c, "move_n", src == want and r.input == dst.end( ) and r.output == src.end( ) );
		A::reverse( src.begin( ), src.end( ) );
		std::reverse( want.begin( ), want.end( ) );
		VF_TRUE( c, "reverse strings", src == want );
		std::string fold = A::accumulate( src.begin( ), src.end( ), std::string( "s" ) );
		VF_EQ( c, "accumulate strings", fold, std::accumulate( want.begin( ), want.end( ), std::string( "s" ) ) );
		if( n > 0 ) {
			std::size_t const m = c.rng.below( n + 1 );
			auto const got = A::rotate( src.begin( ), src.begin( ) + static_cast<long>( m ), src.end( ) );
			auto const w2 = std::rotate( want.begin( ), want.begin( ) + static_cast<long>( m ), want.end( ) );
			VF_TRUE( c, "rotate strings", src == want and got - src.begin( ) == w2 - want.begin( ) );
			auto kept = std::remove_if( want.begin( ), want.end( ), []( auto const &q ) { return q.back( ) == '1'; } );
			auto gk = A::remove_if( src.begin( ), src.end( ), []( auto const &q ) { return q.back( ) == '1'; } );
			VF_TRUE( c, "remove_if strings", std::equal( want.begin( ), kept, src.begin( ), gk ) );
		}
	}
	c.nontrivial( hash_of( v, static_cast<std::uint64_t>( x.k ) ) );
	c.op( "outputs" );
}

// the functions that rearrange a range in place; the neighbours stay as they are
VF_FAMILY( in_place, 40000, 800000 ) {
	int const distinct = 2 + static_cast<int>( c.rng.below( 6 ) );
	auto const whole = elements( c, 12, distinct );
	std::size_t const lo = c.rng.below( whole.size( ) + 1 );
	std::size_t const hi = lo + c.rng.below( whole.size( ) - lo + 1 );
	std::vector<El> const v( whole.begin( ) + static_cast<long>( lo ), whole.begin( ) + static_cast<long>( hi ) );
	std::size_t const n = v.size( );
	El const x{ static_cast<int>( c.rng.below( static_cast<unsigned>( distinct ) + 1U ) ), 1000 };
	std::size_t const m = c.rng.below( n + 1 );
	c.ctx( "range <", show( v ), "> value ", x.k, " at ", m );
	auto const p_lt = [&]( El const &q ) {
		return q.k < x.k;
	};
	// runs f on the sub range and checks that nothing outside of it changed
	auto const run = [&]( char const *label, auto f, bool permutes ) {
		Src s( whole );
		El *b = s.b( ) + lo;
		f( b, s.b( ) + hi );
		bool out = true;
		for( std::size_t i = 0; i < whole.size( ); ++i ) {
			if( i < lo or i >= hi ) {
				out = out and s.b( )[i].id == whole[i].id and s.b( )[i].k == whole[i].k;
			}
		}
		VF_TRUE( c, vf::cat( label, " outside" ).c_str( ), out );
		if( permutes ) {
			auto a = ids( b, b + n ), w = ids( v );
			std::sort( a.begin( ), a.end( ) );
			std::sort( w.begin( ), w.end( ) );
			VF_TRUE( c, vf::cat( label, " permutation" ).c_str( ), a == w );
		}
		c.op( label );
	};
	run( "reverse", [&]( El *b, El *e ) {
		A::reverse( b, e );
		auto w = v;
		std::reverse( w.begin( ), w.end( ) );
		VF_TRUE( c, "reverse", ids( b, e ) == ids( w ) );
		std::list<El> l( v.begin( ), v.end( ) );
		A::reverse( l.begin( ), l.end( ) );
		VF_TRUE( c, "reverse list", ids( l ) == ids( w ) );
		std::vector<El> seen;
		for( auto const &q : A::reverse( l ) ) {
			seen.push_back( q );
		}
		VF_TRUE( c, "reverse view", ids( seen ) == ids( v ) );
	}, true );
	run( "rotate", [&]( El *b, El *e ) {
		auto const r = A::rotate( b, b + m, e );
		auto w = v;
		auto const wr = std::rotate( w.begin( ), w.begin( ) + static_cast<long>( m ), w.end( ) );
		VF_TRUE( c, "rotate", ids( b, e ) == ids( w ) );
		VF_EQ( c, "rotate result", at( b, r ), static_cast<std::size_t>( wr - w.begin( ) ) );
		std::list<El> l( v.begin( ), v.end( ) );
		auto const lr = A::rotate( l.begin( ), std::next( l.begin( ), static_cast<long>( m ) ), l.end( ) );
		VF_TRUE( c, "rotate list", ids( l ) == ids( w ) );
		VF_EQ( c, "rotate list result", at( l.begin( ), lr ), static_cast<std::size_t>( wr - w.begin( ) ) );
	}, true );
	run( "slide", [&]( El *b, El * ) {
		std::size_t const f = c.rng.below( n + 1 ), l = f + c.rng.below( n - f + 1 ), t = c.rng.below( n + 1 );
		auto w = v;
		std::pair<std::size_t, std::size_t> want{ f, l };
		if( t < f ) {
			want = { t, static_cast<std::size_t>( std::rotate( w.begin( ) + static_cast<long>( t ), w.begin( ) + static_cast<long>( f ), w.begin( ) + static_cast<long>( l ) ) - w.begin( ) ) };
		} else if( l < t ) {
			want = { static_cast<std::size_t>( std::rotate( w.begin( ) + static_cast<long>( f ), w.begin( ) + static_cast<long>( l ), w.begin( ) + static_cast<long>( t ) ) - w.begin( ) ), t };
		}
		auto const r = A::slide( b + f, b + l, b + t );
		VF_TRUE( c, "slide", ids( b, b + n ) == ids( w ) );
		VF_EQ( c, "slide first", at( b, r.first ), want.first );
		VF_EQ( c, "slide second", at( b, r.second ), want.second );
	}, true );
	run( "gather", [&]( El *b, El *e ) {
		auto const r = A::gather( b, e, b + m, p_lt );
		std::vector<El> w;
		auto const take = [&]( std::size_t f, std::size_t l, bool which ) {
			for( ; f < l; ++f ) {
				if( p_lt( v[f] ) == which ) {
					w.push_back( v[f] );
				}
			}
		};
		take( 0, m, false );
		std::size_t const f = w.size( );
		take( 0, m, true );
		take( m, n, true );
		std::size_t const l = w.size( );
		take( m, n, false );
		VF_TRUE( c, "gather", ids( b, e ) == ids( w ) );
		VF_EQ( c, "gather first", at( b, r.first ), f );
		VF_EQ( c, "gather second", at( b, r.second ), l );
	}, true );
	run( "nth_element", [&]( El *b, El *e ) {
		A::nth_element( b, b + m, e );
		if( m < n ) {
			auto w = v;
			std::sort( w.begin( ), w.end( ) );
			VF_EQ( c, "nth_element", b[m].k, w[m].k );
			for( std::size_t i = 0; i < n; ++i ) {
				VF_TRUE( c, "nth_element order", i < m ? b[i].k <= b[m].k : b[i].k >= b[m].k );
			}
		}
	}, true );
	run( "nth_element greater", [&]( El *b, El *e ) {
		A::nth_element( b, b + m, e, std::greater<>{ } );
		if( m < n ) {
			auto w = v;
			std::sort( w.begin( ), w.end( ), std::greater<>{ } );
			VF_EQ( c, "nth_element greater", b[m].k, w[m].k );
		}
	}, true );
	run( "partition", [&]( El *b, El *e ) {
		std::size_t calls = 0;
		auto const r = A::partition( b, e, [&]( El const &q ) {
			++calls;
			return p_lt( q );
		} );
		VF_EQ( c, "partition point", at( b, r ), static_cast<std::size_t>( std::count_if( v.begin( ), v.end( ), p_lt ) ) );
		VF_TRUE( c, "partitioned", std::is_partitioned( b, e, p_lt ) );
		VF_EQ( c, "partition calls", calls, n );
	}, true );
	run( "remove", [&]( El *b, El *e ) {
		auto const r = A::remove( b, e, x );
		auto w = v;
		w.erase( std::remove( w.begin( ), w.end( ), x ), w.end( ) );
		VF_TRUE( c, "remove", ids( b, r ) == ids( w ) );
	}, false );
	run( "remove_if", [&]( El *b, El *e ) {
		std::size_t calls = 0;
		auto const r = A::remove_if( b, e, [&]( El const &q ) {
			++calls;
			return p_lt( q );
		} );
		auto w = v;
		w.erase( std::remove_if( w.begin( ), w.end( ), p_lt ), w.end( ) );
		VF_TRUE( c, "remove_if", ids( b, r ) == ids( w ) );
		VF_EQ( c, "remove_if calls", calls, n );
	}, false );
	run( "consume_if", [&]( El *b, El *e ) {
		std::vector<El> seen, gone, kept;
		for( auto const &q : v ) {
			( p_lt( q ) ? gone : kept ).push_back( q );
		}
		auto const r = A::consume_if( b, e, p_lt, [&]( El const &q ) { seen.push_back( q ); } );
		VF_TRUE( c, "consume_if kept", ids( b, r ) == ids( kept ) );
		VF_TRUE( c, "consume_if consumed", ids( seen ) == ids( gone ) );
	}, false );
	run( "for_each_if", [&]( El *b, El *e ) {
		A::for_each_if( b, e, p_lt, []( El &q ) { q.k += 100; } );
		for( std::size_t i = 0; i < n; ++i ) {
			VF_EQ( c, "for_each_if", b[i].k, v[i].k + ( p_lt( v[i] ) ? 100 : 0 ) );
		}
	}, false );
	run( "swap", [&]( El *b, El *e ) {
		std::list<El> l( n, El{ 77, 77 } );
		auto const r = daw::swap_ranges( b, e, l.begin( ) );
		VF_TRUE( c, "swap_ranges", r == l.end( ) and ids( l ) == ids( v ) and std::all_of( b, e, []( El const &q ) { return q.k == 77; } ) );
		daw::swap_ranges( b, e, l.begin( ) );
		if( n > 1 ) {
			std::size_t const i = c.rng.below( n ), j = c.rng.below( n );
			auto w = v;
			std::swap( w[i], w[j] );
			daw::iter_swap( b + i, b + j );
			VF_TRUE( c, "iter_swap", ids( b, e ) == ids( w ) );
			daw::cswap( b[i], b[j] );
			VF_TRUE( c, "cswap", ids( b, e ) == ids( v ) );
		}
	}, true );
	{ // splitting
		auto const got = A::split( v.begin( ), v.end( ), x );
		std::vector<Ids> g, w;
		std::vector<El> cur;
		for( auto const &q : v ) {
			if( q == x ) {
				w.push_back( ids( cur ) );
				cur.clear( );
			} else {
				cur.push_back( q );
			}
		}
		if( not cur.empty( ) ) {
			w.push_back( ids( cur ) );
		}
		for( auto const &q : got ) {
			g.push_back( ids( q ) );
		}
		VF_TRUE( c, "split", g == w );
	}
	{ // contiguous parts
		std::size_t const parts = 1 + c.rng.below( 6 );
		auto const chk = [&]( char const *label, auto const &got, std::size_t minimum ) {
			VF_EQ( c, vf::cat( label, " number" ).c_str( ), got.size( ), parts );
			Ids w;
			std::size_t const part = std::max( n / parts, minimum );
			for( std::size_t i = 0; i < got.size( ); ++i ) {
				auto const q = ids( got[i].begin( ), got[i].end( ) );
				if( i + 1 < got.size( ) ) {
					VF_EQ( c, vf::cat( label, " size" ).c_str( ), q.size( ), std::min( part, n - w.size( ) ) );
				}
				w.insert( w.end( ), q.begin( ), q.end( ) );
			}
			VF_TRUE( c, vf::cat( label, " elements" ).c_str( ), w == ids( v ) );
		};
		Src s( v );
		chk( "partition_range", A::partition_range( s.b( ), s.e( ), parts ), 1 );
		chk( "partition_range of a view", A::partition_range( daw::view( s.b( ), s.e( ) ), parts ), 1 );
		chk( "partition_range of a view min 2", A::partition_range<2>( daw::view( s.l.begin( ), s.l.end( ) ), parts ), 2 );
		chk( "partition_range min 3", A::partition_range<3>( s.l.begin( ), s.l.end( ), parts ), 3 );
	}
	c.nontrivial( hash_of( v, vf::mix( static_cast<std::uint64_t>( x.k ), m ) ) );
}

VF_FAMILY( positions, 20000, 400000 ) {
	Src s( elements( c, 8, 3 ) );
	std::size_t const n = s.v.size( );
	std::size_t const i = c.rng.below( n + 1 );
	std::ptrdiff_t d = c.rng.chance( 1, 6 ) ? ( c.rng.coin( ) ? PTRDIFF_MAX : c.rng.coin( ) ? PTRDIFF_MIN : -PTRDIFF_MAX ) : static_cast<std::ptrdiff_t>( c.rng.range( -12, 12 ) );
	c.ctx( "size ", n, " at ", i, " by ", d );
	auto const clamp = [&]( std::size_t from, std::ptrdiff_t by ) -> std::size_t {
		if( by < 0 ) {
			return by < -static_cast<std::ptrdiff_t>( from ) ? 0 : from - static_cast<std::size_t>( -by );
		}
		return static_cast<std::size_t>( by ) > n - from ? n : from + static_cast<std::size_t>( by );
	};
	auto vi = s.v.begin( ) + static_cast<long>( i );
	daw::safe_advance( s.v, vi, d );
	VF_EQ( c, "safe_advance", at( s.v.begin( ), vi ), clamp( i, d ) );
	if( d < 1000000 and d > -1000000 ) {
		auto li = std::next( s.l.begin( ), static_cast<long>( i ) );
		daw::safe_advance( s.l, li, d );
		VF_EQ( c, "safe_advance list", at( s.l.begin( ), li ), clamp( i, d ) );
	}
	if( c.rng.chance( 1, 6 ) ) { // counts that ptrdiff_t cannot hold
		std::size_t const huge = ~std::size_t{ 0 } >> c.rng.below( 2 );
		auto vh = s.v.begin( ) + static_cast<long>( i );
		daw::safe_advance( s.v, vh, huge );
		VF_EQ( c, "safe_advance huge", at( s.v.begin( ), vh ), n );
		VF_EQ( c, "safe_next huge", at( s.b( ), daw::safe_next( s.b( ) + i, s.e( ), huge ) ), n );
		VF_EQ( c, "safe_next list huge", at( s.l.begin( ), daw::safe_next( std::next( s.l.begin( ), static_cast<long>( i ) ), s.l.end( ), huge ) ), n );
		VF_EQ( c, "safe_prev huge", at( s.b( ), daw::safe_prev( s.b( ) + i, s.b( ), huge ) ), 0u );
	}
	d = d == PTRDIFF_MIN ? -PTRDIFF_MAX : d;
	std::size_t const u = d < 0 ? static_cast<std::size_t>( -d ) : static_cast<std::size_t>( d );
	auto const su = static_cast<std::ptrdiff_t>( u );
	VF_EQ( c, "safe_next", at( s.b( ), daw::safe_next( s.b( ) + i, s.e( ), u ) ), clamp( i, su ) );
	VF_EQ( c, "safe_next 1", at( s.b( ), daw::safe_next( s.b( ) + i, s.e( ) ) ), clamp( i, 1 ) );
	VF_EQ( c, "safe_prev", at( s.b( ), daw::safe_prev( s.b( ) + i, s.b( ), u ) ), clamp( i, -su ) );
	VF_EQ( c, "safe_prev 1", at( s.b( ), daw::safe_prev( s.b( ) + i, s.b( ) ) ), clamp( i, -1 ) );
	std::size_t const any = c.rng.chance( 1, 5 ) ? c.rng.edgy<std::size_t>( ) : c.rng.below( 12 );
	{
		auto &sv = s.v;
		auto const &cv = sv;
		VF_TRUE( c, "rbegin2/rend2", A::rbegin2( sv ) == sv.rbegin( ) and A::rend2( sv ) == sv.rend( ) and A::rbegin2( cv ) == cv.rbegin( ) and A::rend2( cv ) == cv.rend( ) and
		                               A::crbegin2( sv ) == sv.crbegin( ) and A::crend2( sv ) == sv.crend( ) );
		auto const until = A::is_sorted_until( std::as_const( s.l ).begin( ), s.l.end( ), []( auto const &x, auto const &y ) { return x.k > y.k; } );
		auto const wuntil = std::is_sorted_until( cv.begin( ), cv.end( ), []( auto const &x, auto const &y ) { return x.k > y.k; } );
		VF_EQ( c, "is_sorted_until other end type", std::distance( std::as_const( s.l ).begin( ), until ), wuntil - cv.begin( ) );
	}
	VF_EQ( c, "begin_at", at( s.v.begin( ), daw::begin_at( s.v, any ) ), std::min( any, n ) );
	VF_EQ( c, "begin_at const", at( s.v.cbegin( ), daw::begin_at( std::as_const( s.v ), any ) ), std::min( any, n ) );
	if( any < 1000000 ) {
		VF_EQ( c, "begin_at list", at( s.l.begin( ), daw::begin_at( s.l, any ) ), std::min( any, n ) );
	}
	if( n > 0 ) {
		std::size_t const k = c.rng.below( n );
		auto a = s.b( );
		auto b = s.l.begin( );
		auto v = s.v.begin( );
		daw::advance_many( static_cast<std::ptrdiff_t>( k ), a, b, v );
		VF_TRUE( c, "advance_many", at( s.b( ), a ) == k and at( s.l.begin( ), b ) == k and at( s.v.begin( ), v ) == k );
	}
	c.nontrivial( vf::mix( vf::mix( n, i ), static_cast<std::uint64_t>( d ) ) );
	c.op( "positions" );
}

VF_FAMILY( scalars, 20000, 400000 ) {
	auto const val = [&] {
		return c.rng.coin( ) ? static_cast<int>( c.rng.below( 4 ) ) : c.rng.edgy<int>( );
	};
	int const a = val( ), b = val( ), d = val( ), e = val( );
	c.ctx( a, " ", b, " ", d, " ", e );
	VF_EQ( c, "min_item", A::min_item( a, b, d, e ), std::min( { a, b, d, e } ) );
	VF_EQ( c, "max_item", A::max_item( a, b, d, e ), std::max( { a, b, d, e } ) );
	VF_EQ( c, "are_equal 2", A::are_equal( a, b ), a == b );
	VF_EQ( c, "are_equal 3", A::are_equal( a, b, d ), a == b and b == d );
	VF_EQ( c, "are_equal 4", A::are_equal( a, b, d, e ), a == b and b == d and d == e );
	VF_EQ( c, "clamp", A::clamp( static_cast<int>( a ), static_cast<int>( b ) ), std::min( a, b ) );
	auto const mm = A::minmax_item( a, b );
	VF_TRUE( c, "minmax_item", mm.first == std::min( a, b ) and mm.second == std::max( a, b ) );
	VF_EQ( c, "equal_to", A::equal_to( a )( b ), b == a );
	VF_EQ( c, "less_than", A::less_than( a )( b ), b < a );
	VF_EQ( c, "greater_than", A::greater_than( a )( b ), b > a );
	VF_EQ( c, "less_than_or_equal_to", A::less_than_or_equal_to( a )( b ), b <= a );
	VF_EQ( c, "greater_than_or_equal_to", A::greater_than_or_equal_to( a )( b ), b >= a );
	auto const str = []( int q ) {
		return "a text longer than the small string buffer " + std::to_string( q );
	};
	bool threw = false;
	try {
		auto const r = A::in_range( static_cast<int>( a ), static_cast<int>( b ) );
		VF_EQ( c, "in_range", r( d ), a <= d and d <= b );
	} catch( std::out_of_range const & ) {
		threw = true;
	}
	VF_EQ( c, "in_range bounds", threw, a > b );
	threw = false;
	try {
		auto const r = A::in_range( str( a ), str( b ) );
		VF_EQ( c, "in_range string", r( str( d ) ), str( a ) <= str( d ) and str( d ) <= str( b ) );
	} catch( std::out_of_range const & ) {
		threw = true;
	}
	VF_EQ( c, "in_range string bounds", threw, str( a ) > str( b ) );
	VF_EQ( c, "equal_to string", A::equal_to( str( a ) )( str( b ) ), str( a ) == str( b ) );
	{
		auto tp = std::make_tuple( a, static_cast<long>( b ), str( d ) );
		for( std::size_t i = 0; i < 4; ++i ) {
			int calls = 0;
			A::tuple_functor<3>::run( i, tp, [&]( auto const &q ) {
				++calls;
				if constexpr( std::is_same_v<std::remove_cvref_t<decltype( q )>, std::string> ) {
					VF_TRUE( c, "tuple_functor string", i == 2 and q == str( d ) );
				} else {
					VF_TRUE( c, "tuple_functor number", i < 2 and q == ( i == 0 ? a : b ) );
				}
			} );
			VF_EQ( c, "tuple_functor calls", calls, i < 3 ? 1 : 0 );
		}
	}
	{ // arrays
		int l[2][3], r[2][3];
		for( auto &row : l ) {
			for( auto &q : row ) {
				q = static_cast<int>( c.rng.below( 2 ) );
			}
		}
		std::memcpy( r, l, sizeof l );
		if( c.rng.coin( ) ) {
			r[c.rng.below( 2 )][c.rng.below( 3 )] = static_cast<int>( c.rng.below( 3 ) );
		}
		VF_EQ( c, "array_cmp", daw::array_cmp( l, r ), std::memcmp( l, r, sizeof l ) == 0 );
		VF_TRUE( c, "array_cmp three way", daw::array_cmp( l, r, std::compare_three_way{ } ) ==
		                                     std::lexicographical_compare_three_way( &l[0][0], &l[0][0] + 6, &r[0][0], &r[0][0] + 6 ) );
	}
	{ // swapping values
		std::string p = str( a ), q = str( b );
		daw::cswap( p, q );
		VF_TRUE( c, "cswap string", p == str( b ) and q == str( a ) );
		daw::cswap( p, p );
		VF_TRUE( c, "cswap self", p == str( b ) );
		std::array<std::string, 3> x{ str( a ), str( b ), str( d ) }, y{ str( e ), str( a ), str( a ) };
		auto const x0 = x, y0 = y;
		daw::cswap( x, y );
		VF_TRUE( c, "cswap array", x == y0 and y == x0 );
		int g = a, h = b;
		daw::cswap( g, h );
		VF_TRUE( c, "cswap int", g == b and h == a );
	}
	{ // lookups and node transfer
		std::map<int, std::string> m;
		std::unordered_map<int, int> um;
		std::size_t const n = c.rng.below( 8 );
		for( std::size_t i = 0; i < n; ++i ) {
			int const k = static_cast<int>( c.rng.below( 8 ) );
			m[k] = str( k );
			um[k] = k * 2;
		}
		for( int k = 0; k < 8; ++k ) {
			auto const r = daw::try_get( m, k );
			VF_EQ( c, "try_get", r.has_value( ), m.count( k ) != 0 );
			if( r ) {
				VF_TRUE( c, "try_get value", r->first == k and r->second == str( k ) );
			}
			auto const r2 = daw::try_get( std::as_const( um ), k );
			VF_TRUE( c, "try_get const", r2.has_value( ) == ( um.count( k ) != 0 ) and ( not r2 or r2->second == k * 2 ) );
		}
		auto const odd = []( auto const &kv ) {
			return kv.first % 2 != 0;
		};
		auto m1 = m;
		std::map<int, std::string> to;
		A::extract_matching( m1, to, odd );
		std::map<int, std::string> we, wo;
		for( auto const &kv : m ) {
			( odd( kv ) ? wo : we ).insert( kv );
		}
		VF_TRUE( c, "extract_matching", m1 == we and to == wo );
		A::extract_all( m1, to );
		VF_TRUE( c, "extract_all", m1.empty( ) and to == m );
		std::multiset<int> ms, mt;
		for( std::size_t i = 0; i < n; ++i ) {
			ms.insert( static_cast<int>( c.rng.below( 3 ) ) );
		}
		auto const ones = ms.count( 1 ), total = ms.size( );
		A::extract_to( ms, mt, 1 );
		VF_TRUE( c, "extract_to", ms.count( 1 ) == 0 and mt.count( 1 ) == ones and ms.size( ) + mt.size( ) == total );
	}
	c.nontrivial( vf::mix( vf::mix( static_cast<unsigned>( a ), static_cast<unsigned>( b ) ), vf::mix( static_cast<unsigned>( d ), static_cast<unsigned>( e ) ) ) );
	c.op( "scalars" );
}

VF_FAMILY( refusals, 4, 4 ) {
	std::vector<int> v{ 1, 2, 3 };
	auto const r = vf::outcome( [&] { (void)A::binary_search( v.begin( ), v.begin( ), 2 ); } );
	VF_TRUE( c, "binary_search of an empty range is refused", r == vf::End::aborted or r == vf::End::threw );
	c.nontrivial( c.idx );
	c.op( "refusal" );
}

VF_MAIN( )
