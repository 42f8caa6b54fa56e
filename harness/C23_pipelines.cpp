// C23: every pipeline stage, alone and composed, yields the sequence its name
// defines when applied to the whole input.
// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
// VF-FLAGS: -gline-tables-only
#include <limits>
#include <memory>
#include <random>

#include <daw/pipelines/pipeline.h>

#include <daw/daw_pipelines.h>

#include "vf.h"

#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <numeric>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <tuple>
#include <vector>

namespace {
	using namespace daw::pipelines;
	using V = std::vector<int>;
	using VV = std::vector<V>;
	constexpr std::size_t limit = 400000;

	// single pass source
	struct InState {
		V const *src;
		std::size_t pos = 0;
		std::size_t past = 0; // reads or steps at the end
	};
	struct InIt {
		using iterator_category = std::input_iterator_tag;
		using value_type = int;
		using reference = int const &;
		using pointer = int const *;
		using difference_type = std::ptrdiff_t;
		InState *s = nullptr;
		reference operator*( ) const {
			if( s == nullptr or s->pos >= s->src->size( ) ) {
				static int const none = -777;
				if( s )
					++s->past;
				return none;
			}
			return ( *s->src )[s->pos];
		}
		pointer operator->( ) const { return &**this; }
		InIt &operator++( ) {
			if( s == nullptr )
				return *this;
			if( s->pos >= s->src->size( ) )
				++s->past;
			else
				++s->pos;
			return *this;
		}
		InIt operator++( int ) {
			auto r = *this;
			++*this;
			return r;
		}
		bool done( ) const { return s == nullptr or s->pos >= s->src->size( ); }
		friend bool operator==( InIt const &a, InIt const &b ) { return a.done( ) == b.done( ); }
		friend bool operator!=( InIt const &a, InIt const &b ) { return not( a == b ); }
	};

	template<typename R>
	V collect( R &&r ) {
		V out;
		for( auto &&x : r ) {
			out.push_back( static_cast<int>( x ) );
			if( out.size( ) >= limit )
				break;
		}
		return out;
	}
	template<typename R>
	VV collect2( R &&r ) {
		VV out;
		for( auto &&x : r ) {
			V in;
			for( auto &&y : x ) {
				in.push_back( static_cast<int>( y ) );
				if( in.size( ) >= limit )
					break;
			}
			out.push_back( std::move( in ) );
			if( out.size( ) >= limit )
				break;
		}
		return out;
	}
	template<typename R>
	VV collect_tp( R &&r ) {
		VV out;
		for( auto &&x : r ) {
			out.push_back( std::apply( []( auto const &...e ) { return V{ static_cast<int>( e )... }; }, x ) );
			if( out.size( ) >= limit )
				break;
		}
		return out;
	}

	V gen( vf::Case &c, int lim = 9, std::size_t maxn = 14 ) {
		V v( c.rng.len( maxn - 1 ) );
		for( auto &x : v )
			x = static_cast<int>( c.rng.below( static_cast<unsigned>( lim ) ) ) - lim / 3;
		return v;
	}

	// reference definitions
	template<typename F>
	V m_map( V const &v, F f ) {
		V r;
		for( int x : v )
			r.push_back( f( x ) );
		return r;
	}
	template<typename F>
	V m_filter( V const &v, F f ) {
		V r;
		for( int x : v )
			if( f( x ) )
				r.push_back( x );
		return r;
	}
	V m_take( V const &v, std::size_t n ) {
		return V( v.begin( ), v.begin( ) + static_cast<std::ptrdiff_t>( std::min( n, v.size( ) ) ) );
	}
	V m_skip( V const &v, std::size_t n ) {
		return V( v.begin( ) + static_cast<std::ptrdiff_t>( std::min( n, v.size( ) ) ), v.end( ) );
	}
	template<typename F>
	std::size_t lead( V const &v, F f ) {
		std::size_t n = 0;
		while( n < v.size( ) and f( v[n] ) )
			++n;
		return n;
	}
	V m_every( V const &v, std::size_t n ) {
		V r;
		for( std::size_t i = 0; i < v.size( ); i += n )
			r.push_back( v[i] );
		return r;
	}
	V m_unique( V const &v ) {
		V r;
		for( int x : v )
			if( r.empty( ) or r.back( ) != x )
				r.push_back( x );
		return r;
	}
	V m_rev( V v ) {
		std::reverse( v.begin( ), v.end( ) );
		return v;
	}
	VV m_chunk( V const &v, std::size_t n ) {
		VV r;
		for( std::size_t i = 0; i < v.size( ); i += n )
			r.push_back( m_take( m_skip( v, i ), n ) );
		return r;
	}
	VV m_slide( V const &v, std::size_t n ) {
		VV r;
		for( std::size_t i = 0; i + n <= v.size( ); ++i )
			r.push_back( m_take( m_skip( v, i ), n ) );
		return r;
	}
	V m_flat( VV const &v ) {
		V r;
		for( auto const &x : v )
			r.insert( r.end( ), x.begin( ), x.end( ) );
		return r;
	}
	// parts between delimiters; an empty part at the very end is not reported
	template<typename At>
	VV m_split( V const &v, std::size_t len, At at ) {
		VV r;
		std::size_t i = 0;
		while( i < v.size( ) ) {
			std::size_t j = i;
			while( j < v.size( ) and not at( j ) )
				++j;
			r.push_back( V( v.begin( ) + static_cast<std::ptrdiff_t>( i ), v.begin( ) + static_cast<std::ptrdiff_t>( j ) ) );
			i = j == v.size( ) ? j : j + len;
		}
		return r;
	}
	int m_sum( V const &v ) { return std::accumulate( v.begin( ), v.end( ), 0 ); }

	struct Params {
		int k, m, p;
		std::size_t n, n2;
		std::function<bool( int )> pred;
		std::function<int( int )> fn;
	};
	Params params( vf::Case &c, std::size_t len ) {
		Params p;
		p.k = static_cast<int>( c.rng.below( 7 ) ) - 3;
		p.m = static_cast<int>( 2 + c.rng.below( 3 ) );
		p.p = static_cast<int>( c.rng.below( static_cast<unsigned>( p.m ) ) );
		p.n = c.rng.coin( ) ? c.rng.below( len + 3 ) : c.rng.below( 5 );
		if( c.rng.chance( 1, 16 ) )
			p.n = ( std::size_t{ 1 } << ( 8 * ( 1 + c.rng.below( 7 ) ) ) ) + c.rng.below( 2 );
		p.n2 = 1 + c.rng.below( len + 2 );
		if( c.rng.chance( 1, 12 ) ) { // "all of them"
			( c.rng.coin( ) ? p.n : p.n2 ) = ~std::size_t{ 0 } >> c.rng.below( 3 );
		}
		int m = p.m, q = p.p, k = p.k;
		p.pred = [m, q]( int x ) { return ( ( x % m ) + m ) % m == q; };
		if( c.rng.coin( ) )
			p.pred = [k]( int x ) { return x > k; };
		p.fn = [k, m]( int x ) { return x * m + k; };
		return p;
	}

	template<typename Src>
	void single( vf::Case &c, Src &s, V const &v, Params const &p, bool bidir ) {
		auto pred = p.pred;
		auto fn = p.fn;
		auto neg = []( int x ) { return -x - 1; };
		VF_EQ( c, "Map", collect( pipeline( s, Map( p.fn ) ) ), m_map( v, fn ) );
		VF_EQ( c, "Map with projection", collect( pipeline( s, Map( p.fn, neg ) ) ),
		       m_map( v, [&]( int x ) { return fn( neg( x ) ); } ) );
		VF_EQ( c, "Filter", collect( pipeline( s, Filter( p.pred ) ) ), m_filter( v, pred ) );
		VF_EQ( c, "Filter(Not)", collect( pipeline( s, Filter( Not( p.pred ) ) ) ),
		       m_filter( v, [&]( int x ) { return not pred( x ); } ) );
		VF_EQ( c, "Filter(IsOneOf)", collect( pipeline( s, Filter( IsOneOf<1, 3, 0> ) ) ),
		       m_filter( v, []( int x ) { return x == 1 or x == 3 or x == 0; } ) );
		VF_EQ( c, "Take", collect( pipeline( s, Take( p.n ) ) ), m_take( v, p.n ) );
		VF_EQ( c, "Skip", collect( pipeline( s, Skip( p.n ) ) ), m_skip( v, p.n ) );
		VF_EQ( c, "TakeWhile", collect( pipeline( s, TakeWhile( p.pred ) ) ), m_take( v, lead( v, pred ) ) );
		VF_EQ( c, "TakeUntil", collect( pipeline( s, TakeUntil( p.pred ) ) ),
		       m_take( v, lead( v, [&]( int x ) { return not pred( x ); } ) ) );
		VF_EQ( c, "DropWhile", collect( pipeline( s, DropWhile( p.pred ) ) ), m_skip( v, lead( v, pred ) ) );
		VF_EQ( c, "DropUntil", collect( pipeline( s, DropUntil( p.pred ) ) ),
		       m_skip( v, lead( v, [&]( int x ) { return not pred( x ); } ) ) );
		VF_EQ( c, "Every", collect( pipeline( s, Every( p.n2 ) ) ), m_every( v, p.n2 ) );
		VF_EQ( c, "Unique", collect( pipeline( s, Unique ) ), m_unique( v ) );
		VF_EQ( c, "Clamp", collect( pipeline( s, Clamp( p.k, p.k + 2 ) ) ),
		       m_map( v, [&]( int x ) { return std::clamp( x, p.k, p.k + 2 ); } ) );
		VF_EQ( c, "Chunk", collect2( pipeline( s, Chunk( p.n2 ) ) ), m_chunk( v, p.n2 ) );
		VF_EQ( c, "Slide", collect2( pipeline( s, Slide( p.n2 ) ) ), m_slide( v, p.n2 ) );
		VF_EQ( c, "Chunk count", pipeline( s, Chunk( p.n2 ), Count ), m_chunk( v, p.n2 ).size( ) );
		VF_EQ( c, "Slide count", pipeline( s, Slide( p.n2 ), Count ), m_slide( v, p.n2 ).size( ) );
		VF_EQ( c, "Split value", collect2( pipeline( s, Split( int( p.k ) ) ) ),
		       m_split( v, 1, [&]( std::size_t i ) { return v[i] == p.k; } ) );
		VF_EQ( c, "Split predicate", collect2( pipeline( s, Split( p.pred ) ) ),
		       m_split( v, 1, [&]( std::size_t i ) { return pred( v[i] ); } ) );
		V const delim{ p.k, p.k + 1 };
		VF_EQ( c, "Split range", collect2( pipeline( s, Split( V( delim ) ) ) ),
		       m_split( v, 2, [&]( std::size_t i ) { return i + 1 < v.size( ) and v[i] == delim[0] and v[i + 1] == delim[1]; } ) );
		VF_EQ( c, "CacheLast", collect( pipeline( s, CacheLast ) ), v );
		{
			auto e = std::mt19937{ static_cast<unsigned>( c.idx ) };
			std::size_t keep = 1 + c.rng.below( 4 ), size = keep + 1 + c.rng.below( 4 );
			auto e2 = e;
			auto d = std::uniform_int_distribution<std::size_t>( 1, size );
			V want;
			for( int x : v )
				if( d( e2 ) <= keep )
					want.push_back( x );
			VF_EQ( c, "Sample", collect( pipeline( s, Sample( keep, size, e ) ) ), want );
		}
		if( bidir ) {
			if constexpr( requires { --std::begin( s ); } ) {
				VF_EQ( c, "Reverse", collect( pipeline( s, Reverse ) ), m_rev( v ) );
				VF_EQ( c, "Reverse twice", collect( pipeline( s, Reverse, Reverse ) ), v );
				VF_EQ( c, "Map Reverse", collect( pipeline( s, Map( p.fn ), Reverse ) ), m_rev( m_map( v, fn ) ) );
				VF_EQ( c, "Take Reverse", collect( pipeline( s, Take( p.n ), Reverse ) ), m_rev( m_take( v, p.n ) ) );
			}
		}
		{
			VV want;
			for( std::size_t i = 0; i < v.size( ); ++i )
				want.push_back( { static_cast<int>( i ), v[i] } );
			VF_EQ( c, "Enumerate", collect_tp( pipeline( s, Enumerate ) ), want );
			for( auto &w : want )
				w[0] += p.k + 3;
			VF_EQ( c, "EnumerateFrom", collect_tp( pipeline( s, EnumerateFrom( p.k + 3 ) ) ), want );
		}
	}

	template<typename Src>
	void reduce( vf::Case &c, Src &s, V const &v, Params const &p ) {
		auto pred = p.pred;
		auto fn = p.fn;
		VF_EQ( c, "Count", pipeline( s, Count ), v.size( ) );
		VF_EQ( c, "CountIf", pipeline( s, CountIf( p.pred ) ), static_cast<std::size_t>( std::count_if( v.begin( ), v.end( ), pred ) ) );
		VF_EQ( c, "Sum", pipeline( s, Sum ), m_sum( v ) );
		VF_EQ( c, "Contains", pipeline( s, Contains( int( p.k ) ) ), std::count( v.begin( ), v.end( ), p.k ) > 0 );
		VF_EQ( c, "Contains compare", pipeline( s, Contains( int( p.k ), std::less<>{ } ) ),
		       std::any_of( v.begin( ), v.end( ), [&]( int x ) { return x < p.k; } ) );
		VF_EQ( c, "Contains projection", pipeline( s, Contains( int( p.k ), std::equal_to<>{ }, std::negate<>{ } ) ),
		       std::any_of( v.begin( ), v.end( ), [&]( int x ) { return -x == p.k; } ) );
		VF_EQ( c, "To vector", pipeline( s, To<std::vector>( ) ), v );
		VF_EQ( c, "To list", collect( pipeline( s, To<std::list<long>>( ) ) ), v );
		VF_EQ( c, "To set", collect( pipeline( s, To<std::set>( ) ) ),
		       [&] {
			       std::set<int> t( v.begin( ), v.end( ) );
			       return V( t.begin( ), t.end( ) );
		       }( ) );
		{
			auto a = pipeline( s, To<std::array<int, 5>>( ) );
			auto b = pipeline( s, To<std::array<int, 5>, 42>( ) );
			for( std::size_t i = 0; i < 5; ++i ) {
				VF_EQ( c, "To array", a[i], i < v.size( ) ? v[i] : 0 );
				VF_EQ( c, "To array default", b[i], i < v.size( ) ? v[i] : 42 );
			}
		}
		auto pos = [&]( auto it ) { return std::distance( std::begin( s ), it ); };
		auto mpos = [&]( auto it ) { return std::distance( v.begin( ), it ); };
		VF_EQ( c, "Max", pos( pipeline( s, Max ) ), mpos( std::max_element( v.begin( ), v.end( ) ) ) );
		VF_EQ( c, "Min", pos( pipeline( s, Min ) ), mpos( std::min_element( v.begin( ), v.end( ) ) ) );
		VF_EQ( c, "Max compare", pos( pipeline( s, Max( std::greater<>{ } ) ) ), mpos( std::max_element( v.begin( ), v.end( ), std::greater<>{ } ) ) );
		VF_EQ( c, "Min projection", pos( pipeline( s, Min( std::less<>{ }, std::negate<>{ } ) ) ),
		       mpos( std::min_element( v.begin( ), v.end( ), []( int a, int b ) { return -a < -b; } ) ) );
		{
			auto [lo, hi] = pipeline( s, MinMax );
			auto [wl, wh] = std::minmax_element( v.begin( ), v.end( ) );
			VF_EQ( c, "MinMax min", pos( lo ), mpos( wl ) );
			VF_EQ( c, "MinMax max", pos( hi ), mpos( wh ) );
		}
		VF_EQ( c, "Find", pos( pipeline( s, Find( int( p.k ) ) ) ), mpos( std::find( v.begin( ), v.end( ), p.k ) ) );
		VF_EQ( c, "FindIf", pos( pipeline( s, FindIf( p.pred ) ) ), mpos( std::find_if( v.begin( ), v.end( ), pred ) ) );
		{
			std::ptrdiff_t want = static_cast<std::ptrdiff_t>( v.size( ) );
			for( std::size_t i = 0; i + 1 < v.size( ); ++i )
				if( v[i] > v[i + 1] + p.k ) {
					want = static_cast<std::ptrdiff_t>( i );
					break;
				}
			int k = p.k;
			VF_EQ( c, "FindIf pair", pos( pipeline( s, FindIf<2>( [k]( int a, int b ) { return a > b + k; } ) ) ), want );
			want = static_cast<std::ptrdiff_t>( v.size( ) );
			for( std::size_t i = 0; i + 2 < v.size( ); ++i )
				if( v[i] + v[i + 1] + v[i + 2] == 3 * k ) {
					want = static_cast<std::ptrdiff_t>( i );
					break;
				}
			VF_EQ( c, "FindIf triple", pos( pipeline( s, FindIf<3>( [k]( int a, int b, int d ) { return a + b + d == 3 * k; } ) ) ), want );
		}
		auto f = pipeline( s, First( ) );
		VF_EQ( c, "First has", f.has_value( ), not v.empty( ) );
		if( f )
			VF_EQ( c, "First", *f, v.front( ) );
		auto fr = pipeline( s, FirstRef( ) );
		VF_EQ( c, "FirstRef has", fr.has_value( ), not v.empty( ) );
		if( fr )
			VF_TRUE( c, "FirstRef identity", &fr->get( ) == &*std::begin( s ) );
		{
			int sum = 0, cnt = 0;
			(void)ForEach( [&]( int x ) { sum += x; ++cnt; } )( std::span<int const>( v ) );
			VF_EQ( c, "ForEach sum", sum, m_sum( v ) );
			VF_EQ( c, "ForEach calls", static_cast<std::size_t>( cnt ), v.size( ) );
		}
	}

	template<typename Src>
	void composed( vf::Case &c, Src &s, V const &v, Params const &p ) {
		auto pred = p.pred;
		auto fn = p.fn;
		VF_EQ( c, "Filter Map Take", collect( pipeline( s, Filter( p.pred ), Map( p.fn ), Take( p.n ) ) ),
		       m_take( m_map( m_filter( v, pred ), fn ), p.n ) );
		VF_EQ( c, "Skip Every Map", collect( pipeline( s, Skip( p.n ), Every( p.n2 ), Map( p.fn ) ) ),
		       m_map( m_every( m_skip( v, p.n ), p.n2 ), fn ) );
		VF_EQ( c, "Map Unique Filter", collect( pipeline( s, Map( p.fn ), Unique, Filter( p.pred ) ) ),
		       m_filter( m_unique( m_map( v, fn ) ), pred ) );
		VF_EQ( c, "Chunk Map(sum)", collect( pipeline( s, Chunk( p.n2 ), Map( []( auto ch ) { return m_sum( collect( ch ) ); } ) ) ),
		       [&] {
			       V r;
			       for( auto &x : m_chunk( v, p.n2 ) )
				       r.push_back( m_sum( x ) );
			       return r;
		       }( ) );
		VF_EQ( c, "Slide Map(sum) Sum", pipeline( s, Slide( p.n2 ), Map( []( auto ch ) { return m_sum( collect( ch ) ); } ), Sum ),
		       m_sum( m_flat( m_slide( v, p.n2 ) ) ) );
		VF_EQ( c, "Chunk Flatten", collect( pipeline( s, Chunk( p.n2 ), Flatten ) ), v );
		VF_EQ( c, "Slide Flatten", collect( pipeline( s, Slide( p.n2 ), Flatten ) ), m_flat( m_slide( v, p.n2 ) ) );
		VF_EQ( c, "Split Flatten", collect( pipeline( s, Split( p.pred ), Flatten ) ),
		       m_filter( v, [&]( int x ) { return not pred( x ); } ) );
		VF_EQ( c, "Drop Take TakeWhile", collect( pipeline( s, DropWhile( p.pred ), Take( p.n ), TakeUntil( p.pred ) ) ),
		       [&] {
			       V t = m_take( m_skip( v, lead( v, pred ) ), p.n );
			       return m_take( t, lead( t, [&]( int x ) { return not pred( x ); } ) );
		       }( ) );
		VF_EQ( c, "Enumerate Filter Elements", collect( pipeline( s, Enumerate, Filter( []( auto const &t ) { return std::get<0>( t ) % 2 == 1; } ), Element<1> ) ),
		       m_every( m_skip( v, 1 ), 2 ) );
		{
			// a stored pipeline applied to several inputs
			auto stored = pipeline( Filter( p.pred ), Map( p.fn ), To<std::vector>( ) );
			VF_EQ( c, "stored pipeline", stored( s ), m_map( m_filter( v, pred ), fn ) );
			V w( v.rbegin( ), v.rend( ) );
			VF_EQ( c, "stored pipeline second use", stored( w ), m_map( m_filter( w, pred ), fn ) );
		}
		{
			// laziness: nothing is read until iterated, then as much as needed
			std::size_t calls = 0;
			auto view = pipeline( s, Map( [&calls]( int x ) { ++calls; return x; } ) );
			VF_EQ( c, "Map is lazy", calls, std::size_t{ 0 } );
			std::size_t steps = 0;
			for( auto x : view ) {
				(void)x;
				if( ++steps == p.n2 )
					break;
			}
			VF_TRUE( c, "Map reads only what is used", calls <= p.n2 );
		}
	}

	// Walk the iterators of a view the way an algorithm would: copies at
	// several positions, post increment, steps back and jumps where the iterator
	// supports them, comparisons and distances.
	template<typename T>
	auto plain( T &&t ) {
		if constexpr( std::is_arithmetic_v<std::remove_cvref_t<T>> ) return static_cast<int>( t );
		else if constexpr( requires { std::begin( t ); } ) return collect( t );
		else return std::apply( []( auto const &...e ) { return V{ static_cast<int>( e )... }; }, t );
	}

	template<typename It>
	concept counts_back = std::is_base_of_v<std::bidirectional_iterator_tag, typename It::iterator_category> and requires( It i ) { --i; };
	template<typename It>
	concept jumps = std::is_base_of_v<std::random_access_iterator_tag, typename It::iterator_category> and requires( It i ) { i += 1; };

	template<bool Ends = true, typename View, typename Val>
	void cursor( vf::Case &c, char const *what, View &&view, std::vector<Val> const &want ) {
		auto const first = view.begin( );
		using It = std::remove_cvref_t<decltype( first )>;
		auto const last = view.end( );
		std::size_t const n = want.size( );
		{ // a loop with post increment
			std::vector<Val> seen;
			It it = first;
			while( it != last and seen.size( ) <= n ) {
				if( c.rng.coin( ) ) {
					It old = it++;
					seen.push_back( plain( *old ) );
				} else {
					seen.push_back( plain( *it ) );
					++it;
				}
			}
			VF_EQ( c, what, seen, want );
			VF_TRUE( c, what, not Ends or ( it == last and not( it != last ) ) );
		}
		// some views hold references and can be copied but not assigned
		auto const put = []( std::unique_ptr<It> &to, It from ) { to.reset( new It( std::move( from ) ) ); };
		std::unique_ptr<It> oit( new It( first ) ), oother( new It( first ) );
		std::size_t p = 0, q = 0;
		auto const say = [&]( char const *op ) { return vf::cat( what, " ", op ); };
		for( int step = 0; step < 20; ++step ) {
			It &it = *oit;
			char const *op = "copy";
			std::size_t const t = c.rng.below( n + 1 );
			auto const d = static_cast<std::ptrdiff_t>( t ) - static_cast<std::ptrdiff_t>( p );
			switch( c.rng.below( 8 ) ) {
			case 0:
				if( p < n ) op = "++it", ++it, ++p;
				break;
			case 1:
				if( p < n ) op = "it++", (void)it++, ++p;
				break;
			case 2:
				if constexpr( counts_back<It> ) {
					if( p > 0 ) {
						op = "--it";
						--it;
						--p;
					}
				}
				break;
			case 3:
				if constexpr( counts_back<It> and requires { it--; } ) {
					if( p > 0 ) {
						op = "it--";
						It old = it--;
						if( p < n ) VF_EQ( c, say( op ).c_str( ), Val( plain( *old ) ), want[p] );
						--p;
					}
				}
				break;
			case 4:
				if constexpr( jumps<It> ) op = "it += n", it += d, p = t;
				break;
			case 5:
				if constexpr( jumps<It> and requires { it -= d; } ) op = "it -= n", it -= -d, p = t;
				break;
			case 6:
				if constexpr( jumps<It> and requires { it + d; it - d; } ) {
					op = "it +- n";
					It const &cit = it;
					put( oit, c.rng.coin( ) ? cit + d : cit - -d );
					p = t;
				}
				break;
			default:
				if( c.rng.coin( ) ) {
					put( oother, it );
					q = p;
				} else {
					It tmp = it;
					put( oit, *oother );
					put( oother, std::move( tmp ) );
					std::swap( p, q );
				}
			}
			auto const l = say( op );
			It &now = *oit;
			if( p < n ) VF_EQ( c, l.c_str( ), Val( plain( *now ) ), want[p] );
			if constexpr( requires( It const &x ) { *x; } ) {
				It const &cit = now;
				if( p < n ) VF_EQ( c, l.c_str( ), Val( plain( *cit ) ), want[p] );
			}
			It const &a = now;
			It const &b = *oother;
			VF_EQ( c, l.c_str( ), a == b, p == q );
			VF_EQ( c, l.c_str( ), a != b, p != q );
			if constexpr( Ends ) VF_EQ( c, l.c_str( ), now == last, p == n );
			if constexpr( jumps<It> ) {
				if constexpr( requires { a - b; } ) {
					VF_EQ( c, say( "distance" ).c_str( ), static_cast<std::ptrdiff_t>( a - b ), static_cast<std::ptrdiff_t>( p ) - static_cast<std::ptrdiff_t>( q ) );
				}
				if constexpr( requires { a < b; a <= b; a > b; a >= b; } ) {
					VF_TRUE( c, say( "ordering" ).c_str( ), ( a < b ) == ( p < q ) and ( a <= b ) == ( p <= q ) and ( a > b ) == ( p > q ) and ( a >= b ) == ( p >= q ) );
				}
				if constexpr( requires { a[0]; } ) {
					if( p < n ) {
						auto const k = p + c.rng.below( n - p );
						VF_EQ( c, say( "subscript" ).c_str( ), Val( plain( a[static_cast<typename It::difference_type>( k - p )] ) ), want[k] );
						VF_EQ( c, say( "subscript" ).c_str( ), Val( plain( now[static_cast<typename It::difference_type>( k - p )] ) ), want[k] );
					}
				}
			}
		}
	}

	template<typename Src>
	void cursors( vf::Case &c, Src &s, V const &v, Params const &p ) {
		auto pred = p.pred;
		auto fn = p.fn;
		cursor( c, "Map cursor", pipeline( s, Map( p.fn ) ), m_map( v, fn ) );
		cursor( c, "Filter cursor", pipeline( s, Filter( p.pred ) ), m_filter( v, pred ) );
		cursor( c, "Take cursor", pipeline( s, Take( p.n ) ), m_take( v, p.n ) );
		cursor( c, "Skip cursor", pipeline( s, Skip( p.n ) ), m_skip( v, p.n ) );
		cursor( c, "TakeWhile cursor", pipeline( s, TakeWhile( p.pred ) ), m_take( v, lead( v, pred ) ) );
		cursor( c, "DropWhile cursor", pipeline( s, DropWhile( p.pred ) ), m_skip( v, lead( v, pred ) ) );
		cursor( c, "Every cursor", pipeline( s, Every( p.n2 ) ), m_every( v, p.n2 ) );
		cursor( c, "Unique cursor", pipeline( s, Unique ), m_unique( v ) );
		cursor( c, "CacheLast cursor", pipeline( s, CacheLast ), v );
		cursor( c, "Chunk cursor", pipeline( s, Chunk( p.n2 ) ), m_chunk( v, p.n2 ) );
		cursor( c, "Slide cursor", pipeline( s, Slide( p.n2 ) ), m_slide( v, p.n2 ) );
		cursor( c, "Split cursor", pipeline( s, Split( int( p.k ) ) ), m_split( v, 1, [&]( std::size_t i ) { return v[i] == p.k; } ) );
		VV en, two, one;
		std::vector<std::tuple<int, int, int>> rows;
		for( std::size_t i = 0; i < v.size( ); ++i ) {
			en.push_back( { static_cast<int>( i ), v[i] } );
			rows.emplace_back( v[i], static_cast<int>( i ) * 3, v[i] + 1 );
			two.push_back( { v[i] + 1, v[i] } );
		}
		// a zip ends with its shortest range: only != says so
		cursor<false>( c, "Enumerate cursor", pipeline( s, Enumerate ), en );
		{
			V third;
			for( auto const &r : rows ) third.push_back( std::get<2>( r ) );
			cursor( c, "Element cursor", pipeline( rows, Element<2> ), third );
			cursor( c, "Elements cursor", pipeline( rows, Elements<2, 0> ), two );
			std::list<std::tuple<int, int, int>> lrows( rows.begin( ), rows.end( ) );
			cursor( c, "Element cursor", pipeline( lrows, Element<2> ), third );
			cursor( c, "Elements cursor", pipeline( lrows, Elements<2, 0> ), two );
		}
		cursor( c, "Chunk Flatten cursor", pipeline( s, Chunk( p.n2 ), Flatten ), v );
		if constexpr( requires { --std::begin( s ); } ) {
			cursor( c, "Reverse cursor", pipeline( s, Reverse ), m_rev( v ) );
			cursor( c, "Map Reverse cursor", pipeline( s, Map( p.fn ), Reverse ), m_rev( m_map( v, fn ) ) );
			cursor( c, "Take Reverse cursor", pipeline( s, Take( p.n ), Reverse ), m_rev( m_take( v, p.n ) ) );
		}
	}

	VF_FAMILY( cursors_of_views, 3000, 60000 ) {
		V v = gen( c );
		auto p = params( c, v.size( ) );
		c.ctx( "v=", v, " k=", p.k, " m=", p.m, " p=", p.p, " n=", p.n, " n2=", p.n2 );
		switch( c.idx % 3 ) {
		case 0: {
			vf::Exact<int> ex( v.begin( ), v.size( ) );
			std::span<int const> s( ex.data( ), ex.size( ) );
			cursors( c, s, v, p );
			break;
		}
		case 1: {
			std::list<int> s( v.begin( ), v.end( ) );
			cursors( c, s, v, p );
			break;
		}
		default: {
			std::forward_list<int> const s( v.begin( ), v.end( ) );
			cursors( c, s, v, p );
			break;
		}
		}
		if( not v.empty( ) )
			c.nontrivial( vf::mix( static_cast<std::uint64_t>( v.size( ) * 37 + p.n ), static_cast<std::uint64_t>( p.n2 * 64 + static_cast<std::size_t>( p.k + 8 ) ) ) );
	}

	VF_FAMILY( stages, 9000, 120000 ) {
		V v = gen( c );
		V const before = v;
		auto p = params( c, v.size( ) );
		c.ctx( "v=", v, " k=", p.k, " m=", p.m, " p=", p.p, " n=", p.n, " n2=", p.n2 );
		switch( c.idx % 3 ) {
		case 0: {
			vf::Exact<int> ex( v.begin( ), v.size( ) );
			std::span<int const> s( ex.data( ), ex.size( ) );
			single( c, s, v, p, true );
			VF_EQ( c, "source unmodified", V( s.begin( ), s.end( ) ), before );
			break;
		}
		case 1: {
			std::list<int> s( v.begin( ), v.end( ) );
			single( c, s, v, p, true );
			VF_EQ( c, "source unmodified", V( s.begin( ), s.end( ) ), before );
			break;
		}
		default: {
			std::forward_list<int> const s( v.begin( ), v.end( ) );
			single( c, s, v, p, false );
			break;
		}
		}
		if( not v.empty( ) )
			c.nontrivial( vf::mix( static_cast<std::uint64_t>( v.size( ) * 31 + p.n ), static_cast<std::uint64_t>( p.n2 * 64 + static_cast<std::size_t>( p.k + 8 ) ) ) );
	}

	VF_FAMILY( reductions, 6000, 100000 ) {
		V v = gen( c );
		auto p = params( c, v.size( ) );
		c.ctx( "v=", v, " k=", p.k, " n=", p.n, " n2=", p.n2 );
		if( c.idx % 2 == 0 ) {
			vf::Exact<int> ex( v.begin( ), v.size( ) );
			std::span<int const> s( ex.data( ), ex.size( ) );
			reduce( c, s, v, p );
		} else {
			std::forward_list<int> s( v.begin( ), v.end( ) );
			reduce( c, s, v, p );
		}
		// Sort works in place on an lvalue
		{
			V a = v, b = v;
			(void)pipeline( a, Sort );
			std::sort( b.begin( ), b.end( ) );
			VF_EQ( c, "Sort", a, b );
			a = v;
			(void)pipeline( a, Sort( std::greater<>{ } ) );
			std::reverse( b.begin( ), b.end( ) );
			VF_EQ( c, "Sort compare", a, b );
			a = v;
			VF_EQ( c, "Copy Sort Unique", pipeline( a, Copy, Sort, Unique, To<std::vector>( ) ),
			       m_unique( m_rev( b ) ) );
			VF_EQ( c, "Copy leaves the source", a, v );
		}
		// compensated summation is at least as close as the plain sum
		{
			std::vector<double> d( v.size( ) );
			long double exact = 0;
			double mag = 0;
			for( auto &x : d ) {
				x = static_cast<double>( static_cast<int>( c.rng.below( 2001 ) ) - 1000 ) * std::pow( 2.0, static_cast<double>( c.rng.below( 60 ) ) - 30.0 );
				exact += static_cast<long double>( x );
				mag = std::max( mag, std::abs( x ) );
			}
			auto got = pipeline( d, SumKahanBabushkaNeumaier );
			VF_TRUE( c, "Kahan sum", std::abs( static_cast<long double>( got ) - exact ) <= static_cast<long double>( std::abs( got ) ) * 0x1p-51L + static_cast<long double>( mag ) * 0x1p-62L * 16 );
			auto got2 = pipeline( d, SumKahanBabushkaNeumaier( std::negate<>{ } ) );
			VF_EQ( c, "Kahan sum projected", got2, -got );
		}
		c.nontrivial( vf::mix( v.size( ), static_cast<std::uint64_t>( m_sum( v ) ) ) );
	}

	VF_FAMILY( compositions, 6000, 100000 ) {
		V v = gen( c, 9, 18 );
		auto p = params( c, v.size( ) );
		c.ctx( "v=", v, " k=", p.k, " m=", p.m, " p=", p.p, " n=", p.n, " n2=", p.n2 );
		if( c.idx % 2 == 0 ) {
			vf::Exact<int> ex( v.begin( ), v.size( ) );
			std::span<int const> s( ex.data( ), ex.size( ) );
			composed( c, s, v, p );
		} else {
			std::list<int> s( v.begin( ), v.end( ) );
			composed( c, s, v, p );
		}
		c.nontrivial( vf::mix( v.size( ), p.n2 * 100 + p.n ) );
	}

	VF_FAMILY( single_pass, 5000, 80000 ) {
		V v = gen( c );
		auto p = params( c, v.size( ) );
		c.ctx( "v=", v, " k=", p.k, " n=", p.n );
		auto run = [&]( char const *what, auto stage, V const &want ) {
			InState st{ &v };
			range_t r{ InIt{ &st }, InIt{ } };
			VF_EQ( c, what, collect( pipeline( r, stage ) ), want );
			VF_EQ( c, vf::cat( what, ": no read past the end" ).c_str( ), st.past, std::size_t{ 0 } );
		};
		run( "input Map", Map( p.fn ), m_map( v, p.fn ) );
		run( "input Filter", Filter( p.pred ), m_filter( v, p.pred ) );
		run( "input Take", Take( p.n ), m_take( v, p.n ) );
		run( "input Skip", Skip( p.n ), m_skip( v, p.n ) );
		run( "input DropWhile", DropWhile( p.pred ), m_skip( v, lead( v, p.pred ) ) );
		run( "input TakeWhile", TakeWhile( p.pred ), m_take( v, lead( v, p.pred ) ) );
		run( "input Every", Every( p.n2 ), m_every( v, p.n2 ) );
		{
			InState st{ &v };
			range_t r{ InIt{ &st }, InIt{ } };
			VF_EQ( c, "input Sum", pipeline( r, Sum ), m_sum( v ) );
			VF_EQ( c, "input Sum: no read past the end", st.past, std::size_t{ 0 } );
		}
		c.nontrivial( vf::mix( v.size( ), p.n ) );
	}

	VF_FAMILY( several_ranges, 7000, 100000 ) {
		V a = gen( c ), b = gen( c ), d = gen( c );
		if( c.rng.chance( 1, 3 ) )
			b.resize( a.size( ) );
		c.ctx( "a=", a, " b=", b, " d=", d );
		vf::Exact<int> ea( a.begin( ), a.size( ) ), eb( b.begin( ), b.size( ) );
		std::span<int const> sa( ea.data( ), ea.size( ) ), sb( eb.data( ), eb.size( ) );
		std::list<int> ld( d.begin( ), d.end( ) );
		std::size_t const n2 = std::min( a.size( ), b.size( ) ), n3 = std::min( n2, d.size( ) );
		VV z2, z3;
		for( std::size_t i = 0; i < n2; ++i )
			z2.push_back( { a[i], b[i] } );
		for( std::size_t i = 0; i < n3; ++i )
			z3.push_back( { a[i], b[i], d[i] } );
		VF_EQ( c, "Zip 2", collect_tp( Zip( sa, sb ) ), z2 );
		VF_EQ( c, "Zip 3", collect_tp( Zip( sa, sb, ld ) ), z3 );
		VF_EQ( c, "Zip in a pipeline", collect_tp( pipeline( Zip )( sa, sb, ld ) ), z3 );
		VF_EQ( c, "Zip MapApply", collect( pipeline( Zip, MapApply( []( int x, int y ) { return x * 10 + y; } ) )( sa, sb ) ),
		       [&] {
			       V r;
			       for( auto &t : z2 )
				       r.push_back( t[0] * 10 + t[1] );
			       return r;
		       }( ) );
		VF_EQ( c, "Zip Count", pipeline( Zip, Count )( sa, sb ), n2 );
		VF_EQ( c, "Zip list Count", static_cast<std::size_t>( collect_tp( Zip( ld, sa ) ).size( ) ), std::min( a.size( ), d.size( ) ) );
		VF_EQ( c, "ZipMore", collect_tp( pipeline( sb, ZipMore( sa ) ) ), z2 );
		VF_EQ( c, "Zip Element", collect( pipeline( Zip, Element<1> )( sa, sb, ld ) ),
		       m_take( b, n3 ) );
		VF_EQ( c, "Zip Elements", collect_tp( pipeline( Zip, Elements<2, 0> )( sa, sb, ld ) ),
		       [&] {
			       VV r;
			       for( auto &t : z3 )
				       r.push_back( { t[2], t[0] } );
			       return r;
		       }( ) );
		V cat2 = a;
		cat2.insert( cat2.end( ), b.begin( ), b.end( ) );
		V cat3 = cat2;
		cat3.insert( cat3.end( ), d.begin( ), d.end( ) );
		VF_EQ( c, "Concat 2", collect( pipeline( Zip, Concat )( sa, sb ) ), cat2 );
		VF_EQ( c, "Concat 3", pipeline( Zip, Concat, To<std::vector>( ) )( sa, sb, ld ), cat3 );
		VF_EQ( c, "Concat of the same range", collect( pipeline( Zip, Concat )( sa, sa ) ),
		       [&] {
			       V r = a;
			       r.insert( r.end( ), a.begin( ), a.end( ) );
			       return r;
		       }( ) );
		VF_EQ( c, "Concat Filter Count", pipeline( Zip, Concat, Filter( []( int x ) { return x > 1; } ), Count )( sa, ld, sb ),
		       static_cast<std::size_t>( std::count_if( cat3.begin( ), cat3.end( ), []( int x ) { return x > 1; } ) ) );
		// nested
		VV vv( c.rng.below( 6 ) );
		for( auto &x : vv )
			if( c.rng.chance( 2, 3 ) )
				x = gen( c, 9, 5 );
		VV const &cvv = vv;
		VF_EQ( c, "Flatten", collect( pipeline( vv, Flatten ) ), m_flat( vv ) );
		VF_EQ( c, "Flatten const", collect( pipeline( cvv, Flatten ) ), m_flat( vv ) );
		VF_EQ( c, "Flatten Sum", pipeline( cvv, Flatten, Sum ), m_sum( m_flat( vv ) ) );
		for( auto &x : pipeline( vv, Flatten ) )
			x += 1;
		VF_EQ( c, "Flatten refers to the elements", m_sum( m_flat( cvv ) ), m_sum( collect( pipeline( cvv, Flatten ) ) ) );
		c.nontrivial( vf::mix( vf::mix( a.size( ), b.size( ) ), vf::mix( d.size( ), vv.size( ) ) ) );
	}

	VF_FAMILY( tuples, 5000, 80000 ) {
		using T = std::tuple<int, short, long>;
		std::vector<T> t( c.rng.below( 9 ) );
		for( auto &x : t )
			x = T( static_cast<int>( c.rng.below( 100 ) ), static_cast<short>( c.rng.below( 100 ) ), static_cast<long>( c.rng.below( 100 ) ) );
		VV w210, w20, w00;
		V w1, ws;
		for( auto &[x, y, z] : t ) {
			w210.push_back( { int( z ), int( y ), x } );
			w20.push_back( { int( z ), x } );
			w00.push_back( { x, x } );
			w1.push_back( y );
			ws.push_back( static_cast<int>( x + y * 2 + z * 3 ) );
		}
		VF_EQ( c, "Element", collect( pipeline( t, Element<1> ) ), w1 );
		VF_EQ( c, "Elements", collect_tp( pipeline( t, Elements<2, 1, 0> ) ), w210 );
		VF_EQ( c, "Swizzle", collect_tp( pipeline( t, Swizzle<2, 0> ) ), w20 );
		VF_EQ( c, "Swizzle repeated", collect_tp( pipeline( t, Swizzle<0, 0> ) ), w00 );
		VF_EQ( c, "MapApply", collect( pipeline( t, MapApply( []( int x, int y, long z ) { return x + y * 2 + z * 3; } ) ) ), ws );
		{
			V got;
			(void)ForEachApply( [&]( int x, int y, long z ) { got.push_back( static_cast<int>( x + y * 2 + z * 3 ) ); } )( std::span<T>( t ) );
			VF_EQ( c, "ForEachApply", got, ws );
		}
		// temporaries produced by an earlier stage
		VF_EQ( c, "Map Element",
		       collect( pipeline( w1, Map( []( int x ) { return std::tuple<int, std::string>( x, std::string( 30, 'a' ) + std::to_string( x ) ); } ),
		                          Element<1>, Map( []( std::string const &s ) { return std::stoi( s.substr( 30 ) ); } ) ) ),
		       w1 );
		// random access of the views
		if( not t.empty( ) ) {
			std::ptrdiff_t const n = static_cast<std::ptrdiff_t>( t.size( ) );
			V x0;
			for( auto &e : t )
				x0.push_back( std::get<0>( e ) );
			auto e = pipeline( t, Element<0> );
			auto m = pipeline( x0, Map( []( int x ) { return x * 3; }, []( int x ) { return x + 1; } ) );
			auto z = Zip( x0, w1 );
			auto tk = pipeline( x0, Take( t.size( ) ) );
			auto io = iota_view<int>( 5, 5 + static_cast<int>( n ) );
			auto en = pipeline( x0, Enumerate );
			for( int k = 0; k < 8; ++k ) {
				std::ptrdiff_t i = static_cast<std::ptrdiff_t>( c.rng.below( static_cast<unsigned>( n ) ) ), j = static_cast<std::ptrdiff_t>( c.rng.below( static_cast<unsigned>( n ) ) );
				std::size_t const ui = static_cast<std::size_t>( i ), uj = static_cast<std::size_t>( j );
				auto go = [&]( char const *what, auto const &r, auto at ) {
					auto const b = std::begin( r );
					auto const p = b + i;
					VF_TRUE( c, vf::cat( what, " +" ).c_str( ), at( *p, ui ) );
					auto q = p + ( j - i );
					VF_TRUE( c, vf::cat( what, " + signed" ).c_str( ), at( *q, uj ) );
					VF_TRUE( c, vf::cat( what, " + keeps the iterator" ).c_str( ), p == b + i );
					auto q2 = q - ( j - i );
					VF_TRUE( c, vf::cat( what, " -" ).c_str( ), q2 == p );
					VF_EQ( c, vf::cat( what, " difference" ).c_str( ), static_cast<std::ptrdiff_t>( q - p ), j - i );
					auto s = b;
					VF_TRUE( c, vf::cat( what, " []" ).c_str( ), at( s[static_cast<std::size_t>( i )], ui ) );
					s += i;
					VF_TRUE( c, vf::cat( what, " +=" ).c_str( ), s == p );
					s -= i;
					VF_TRUE( c, vf::cat( what, " -=" ).c_str( ), s == b );
					s = q;
					auto old = s++;
					VF_TRUE( c, vf::cat( what, " post ++" ).c_str( ), old == q and s == b + ( j + 1 ) );
					auto old2 = s--;
					VF_TRUE( c, vf::cat( what, " post --" ).c_str( ), old2 == b + ( j + 1 ) and s == q );
				};
				go( "Element", e, [&]( int x, std::size_t at ) { return x == x0[at]; } );
				go( "Zip", z, [&]( auto const &x, std::size_t at ) { return std::get<0>( x ) == x0[at] and std::get<1>( x ) == w1[at]; } );
				go( "Take", tk, [&]( int x, std::size_t at ) { return x == x0[at]; } );
				go( "iota", io, [&]( int x, std::size_t at ) { return x == 5 + static_cast<int>( at ); } );
				auto const mb = m.begin( );
				VF_EQ( c, "Map +", *( mb + i ), ( x0[ui] + 1 ) * 3 );
				VF_EQ( c, "Map []", mb[ui], ( x0[ui] + 1 ) * 3 );
				VF_TRUE( c, "Map + keeps the iterator", mb == m.begin( ) );
				VF_EQ( c, "Map difference", ( mb + j ) - ( mb + i ), j - i );
				VF_TRUE( c, "Map -", ( ( mb + n ) - ( n - i ) ) == mb + i );
				auto a = e.begin( ) + i, b = e.begin( ) + j;
				VF_EQ( c, "Element <", a < b, i < j );
				auto ta = tk.begin( ) + i, tb = tk.begin( ) + j;
				VF_EQ( c, "Take <", ta < tb, i < j );
				VF_EQ( c, "Take >=", ta >= tb, i >= j );
			}
			VF_EQ( c, "Enumerate distance", en.end( ) - en.begin( ), n );
			VF_EQ( c, "Enumerate To vector", pipeline( x0, Enumerate, To<std::vector>( ) ).size( ), t.size( ) );
			VF_EQ( c, "EnumerateFrom To vector", pipeline( x0, EnumerateFrom<unsigned char>( 3 ), To<std::vector>( ) ).size( ), t.size( ) );
			{
				std::ptrdiff_t const i = static_cast<std::ptrdiff_t>( c.rng.below( static_cast<unsigned>( n ) + 1 ) ), j = static_cast<std::ptrdiff_t>( c.rng.below( static_cast<unsigned>( n ) + 1 ) );
				auto order = [&]( char const *what, auto a, auto b ) {
					VF_EQ( c, vf::cat( what, " ordered <" ).c_str( ), a < b, i < j );
					VF_EQ( c, vf::cat( what, " ordered <=" ).c_str( ), a <= b, i <= j );
					VF_EQ( c, vf::cat( what, " ordered >" ).c_str( ), a > b, i > j );
					VF_EQ( c, vf::cat( what, " ordered >=" ).c_str( ), a >= b, i >= j );
					VF_EQ( c, vf::cat( what, " ordered ==" ).c_str( ), a == b, i == j );
					VF_EQ( c, vf::cat( what, " ordered !=" ).c_str( ), a != b, i != j );
				};
				order( "Element", e.begin( ) + i, e.begin( ) + j );
				order( "Zip", z.begin( ) + i, z.begin( ) + j );
				order( "Take", tk.begin( ) + i, tk.begin( ) + j );
				vf::Exact<int> rx( x0.begin( ), x0.size( ) );
				int *const rp = rx.data( );
				range_t rr( rp + std::min( i, j ), rp + std::max( i, j ) );
				auto const &cr = rr;
				VF_TRUE( c, "range_t bounds", rr.begin( ) == rp + std::min( i, j ) and rr.end( ) == rp + std::max( i, j ) and cr.begin( ) == rr.begin( ) and cr.end( ) == rr.end( ) and cr.cbegin( ) == rr.begin( ) and cr.cend( ) == rr.end( ) );
				VF_EQ( c, "range_t size", cr.size( ), static_cast<std::size_t>( std::abs( i - j ) ) );
				VF_TRUE( c, "range_t data", rr.data( ) == rr.begin( ) and cr.data( ) == rr.begin( ) and rr.data_end( ) == rr.end( ) and cr.data_end( ) == rr.end( ) );
				if( i != j ) {
					std::ptrdiff_t const last = std::abs( i - j ) - 1;
					VF_TRUE( c, "range_t elements", &*rr == rr.begin( ) and &*cr == rr.begin( ) and rr.operator->( ) == rr.begin( ) and cr.operator->( ) == rr.begin( ) and &rr[last] == rr.end( ) - 1 and &cr[last] == rr.end( ) - 1 );
					auto const was = rr;
					auto const got = rr++;
					VF_TRUE( c, "range_t post ++", got == was and rr.begin( ) == was.begin( ) + 1 and rr.end( ) == was.end( ) and rr != was and was < rr and rr - was == 1 );
					auto const got2 = rr--;
					VF_TRUE( c, "range_t post --", got2.begin( ) == was.begin( ) + 1 and rr == was );
					VF_TRUE( c, "range_t ++ --", &++rr == &rr and rr.begin( ) == was.begin( ) + 1 and &--rr == &rr and rr == was );
				}
				range_t whole( x0 );
				VF_TRUE( c, "range_t of a range", whole.begin( ) == x0.begin( ) and whole.end( ) == x0.end( ) );
			}
			range_t r1( x0.begin( ) + 1, x0.end( ) ), r2( x0.begin( ), x0.end( ) );
			VF_EQ( c, "range_t difference", r1 - r2, std::ptrdiff_t{ 1 } );
		}
		{
			int k = 0;
			std::size_t n = c.rng.below( 9 );
			V want( n );
			std::iota( want.begin( ), want.end( ), 0 );
			VF_EQ( c, "generate_n", collect( generate_n( n, [&k] { return k++; } ) ), want );
			auto o = Filter( []( int x ) { return x % 2 == 0; } )( static_cast<int>( n ) * 2 + 4 );
			VF_TRUE( c, "Filter of a value keeps it", o.has_value( ) and static_cast<int>( *o ) == static_cast<int>( n ) * 2 + 4 );
			VF_TRUE( c, "Filter of a value drops it", not Filter( []( int x ) { return x % 2 == 0; } )( static_cast<int>( n ) * 2 + 1 ).has_value( ) );
			VF_EQ( c, "Map of a value", Map( []( int x ) { return x * 2; }, []( int x ) { return x + 1; } )( 4 ), 10 );
			VF_EQ( c, "Clamp of a value", Clamp( 2, 5 )( static_cast<int>( n ) ), std::clamp( static_cast<int>( n ), 2, 5 ) );
		}
		c.nontrivial( vf::mix( t.size( ), t.empty( ) ? 0u : static_cast<std::uint64_t>( std::get<0>( t[0] ) ) ) );
	}
} // namespace

VF_MAIN( )
