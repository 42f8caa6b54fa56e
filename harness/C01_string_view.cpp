#include "sv_common.h"
#include <array>
#include <sstream>
#include <iomanip>

static int sgn( int x ) {
	return x < 0 ? -1 : ( x > 0 ? 1 : 0 );
}

template<typename CharT>
static void queries( vf::Case &c ) {
	auto &r = c.rng;
	unsigned mode = static_cast<unsigned>( r.below( 4 ) );
	auto text = rnd_text<CharT>( r, mode, 14 );
	auto needle = rnd_needle<CharT>( r, text, mode );
	CharT ch = ( not text.empty( ) and r.coin( ) ) ? text[r.below( text.size( ) )] : pick_char<CharT>( r, mode );
	c.ctx( "text=", esc( text ).c_str( ), " needle=", esc( needle ).c_str( ), " ch=", (unsigned long)ch );
	vf::Exact<CharT> tb{ ssv<CharT>( text ) };
	vf::Exact<CharT> nb{ ssv<CharT>( needle ) };
	dsv<CharT> v( tb.data( ), tb.size( ) );
	dsv<CharT> n( nb.data( ), nb.size( ) );
	ssv<CharT> sv( text );
	ssv<CharT> sn( needle );
	if( sv.find( sn ) != ssv<CharT>::npos and not sn.empty( ) )
		c.nontrivial( vf::mix( hash_text( text ), hash_text( needle ) ) + sizeof( CharT ) );

	VF_EQ( c, "size", v.size( ), sv.size( ) );
	VF_EQ( c, "length", v.length( ), sv.size( ) );
	VF_EQ( c, "empty", v.empty( ), sv.empty( ) );
	VF_EQ( c, "data", v.data( ), static_cast<CharT const *>( tb.data( ) ) );
	VF_EQ( c, "data_end", v.data_end( ), static_cast<CharT const *>( tb.end( ) ) );
	{
		c.op( "iterate" );
		bstr<CharT> f( v.begin( ), v.end( ) ), cf( v.cbegin( ), v.cend( ) ), b( v.rbegin( ), v.rend( ) ), cb( v.crbegin( ), v.crend( ) );
		bstr<CharT> rev( text.rbegin( ), text.rend( ) );
		VF_EQ( c, "begin-end", f, text );
		VF_EQ( c, "cbegin-cend", cf, text );
		VF_EQ( c, "rbegin-rend", b, rev );
		VF_EQ( c, "crbegin-crend", cb, rev );
	}
	for( size_t i = 0; i <= text.size( ) + 1; ++i ) {
		c.op( "at" );
		bool threw = false;
		CharT got{ };
		try {
			got = v.at( i );
		} catch( std::out_of_range const & ) {
			threw = true;
		}
		VF_EQ( c, "at-throws", threw, i >= text.size( ) );
		if( i < text.size( ) ) {
			VF_EQ( c, "at", got, text[i] );
			VF_EQ( c, "operator[]", v[i], text[i] );
		}
	}
	if( not text.empty( ) ) {
		VF_EQ( c, "front", v.front( ), text.front( ) );
		VF_EQ( c, "back", v.back( ), text.back( ) );
	}
	c.op( "find(v)" );
	VF_EQ( c, "find(v)", v.find( n ), sv.find( sn ) );
	VF_EQ( c, "contains(v)", v.contains( n ), sv.find( sn ) != sv.npos );
	c.op( "rfind(v)" );
	VF_EQ( c, "rfind(v)", v.rfind( n ), sv.rfind( sn ) );
	c.op( "find(ch)" );
	VF_EQ( c, "find(ch)", v.find( ch ), sv.find( ch ) );
	VF_EQ( c, "contains(ch)", v.contains( ch ), sv.find( ch ) != sv.npos );
	VF_EQ( c, "rfind(ch)", v.rfind( ch ), sv.rfind( ch ) );
	VF_EQ( c, "find_first_of(ch)", v.find_first_of( ch ), sv.find_first_of( ch ) );
	VF_EQ( c, "find_last_of(ch)", v.find_last_of( ch ), sv.find_last_of( ch ) );
	VF_EQ( c, "find_first_not_of(ch)", v.find_first_not_of( ch ), sv.find_first_not_of( ch ) );
	VF_EQ( c, "find_last_not_of(ch)", v.find_last_not_of( ch ), sv.find_last_not_of( ch ) );
	c.op( "find_*_of" );
	VF_EQ( c, "find_first_of(v)", v.find_first_of( n ), sv.find_first_of( sn ) );
	VF_EQ( c, "find_last_of(v)", v.find_last_of( n ), sv.find_last_of( sn ) );
	VF_EQ( c, "find_first_not_of(v)", v.find_first_not_of( n ), sv.find_first_not_of( sn ) );
	VF_EQ( c, "find_last_not_of(v)", v.find_last_not_of( n ), sv.find_last_not_of( sn ) );
	auto in_set = [&]( CharT x ) { return sn.find( x ) != sn.npos; };
	c.op( "find_*_of_if" );
	VF_EQ( c, "find_first_of_if", v.find_first_of_if( in_set ), sv.find_first_of( sn ) );
	VF_EQ( c, "find_first_not_of_if", v.find_first_not_of_if( in_set ), sv.find_first_not_of( sn ) );
	VF_EQ( c, "find_last_of_if", v.find_last_of_if( in_set ), sv.find_last_of( sn ) );
	VF_EQ( c, "find_last_not_of_if", v.find_last_not_of_if( in_set ), sv.find_last_not_of( sn ) );

	bstr<CharT> const zneedle = needle.substr( 0, needle.find( CharT{ } ) ); // as C string
	ssv<CharT> const sz( zneedle );
	for( size_t p = 0; p <= text.size( ) + 2; ++p ) {
		bool const inside = p <= text.size( );
		c.op( "find(v,pos)" );
		VF_EQ( c, "find(v,pos)", v.find( n, p ), sv.find( sn, p ) );
		c.op( "find(ch,pos)" );
		if( inside ) {
			VF_EQ( c, "find(ch,pos)", v.find( ch, p ), sv.find( ch, p ) );
			VF_EQ( c, "contains(ch,pos)", v.contains( ch, p ), sv.find( ch, p ) != sv.npos );
			VF_EQ( c, "find(s,pos,count)", v.find( nb.data( ), p, nb.size( ) ), sv.find( sn, p ) );
			VF_EQ( c, "contains(s,pos,count)", v.contains( nb.data( ), p, nb.size( ) ), sv.find( sn, p ) != sv.npos );
			VF_EQ( c, "find(zs,pos)", v.find( zneedle.c_str( ), p ), sv.find( sz, p ) );
			VF_EQ( c, "contains(zs,pos)", v.contains( zneedle.c_str( ), p ), sv.find( sz, p ) != sv.npos );
		}
		c.op( "rfind(v,pos)" );
		VF_EQ( c, "rfind(v,pos)", v.rfind( n, p ), sv.rfind( sn, p ) );
		VF_EQ( c, "rfind(ch,pos)", v.rfind( ch, p ), sv.rfind( ch, p ) );
		VF_EQ( c, "rfind(zs,pos)", v.rfind( zneedle.c_str( ), p ), sv.rfind( sz, p ) );
		VF_EQ( c, "rfind(s,pos,count)", v.rfind( nb.data( ), p, nb.size( ) ), sv.rfind( sn, p ) );
		c.op( "find_first_of(v,pos)" );
		VF_EQ( c, "find_first_of(v,pos)", v.find_first_of( n, p ), sv.find_first_of( sn, p ) );
		VF_EQ( c, "find_first_of(ch,pos)", v.find_first_of( ch, p ), sv.find_first_of( ch, p ) );
		VF_EQ( c, "find_first_of(zs,pos)", v.find_first_of( zneedle.c_str( ), p ), sv.find_first_of( sz, p ) );
		VF_EQ( c, "find_first_of(s,pos,count)", v.find_first_of( nb.data( ), p, nb.size( ) ), sv.find_first_of( sn, p ) );
		VF_EQ( c, "find_first_of_if(pos)", v.find_first_of_if( in_set, p ), sv.find_first_of( sn, p ) );
		c.op( "find_first_not_of(v,pos)" );
		VF_EQ( c, "find_first_not_of(v,pos)", v.find_first_not_of( n, p ), sv.find_first_not_of( sn, p ) );
		VF_EQ( c, "find_first_not_of(ch,pos)", v.find_first_not_of( ch, p ), sv.find_first_not_of( ch, p ) );
		VF_EQ( c, "find_first_not_of(zs,pos)", v.find_first_not_of( zneedle.c_str( ), p ), sv.find_first_not_of( sz, p ) );
		VF_EQ( c, "find_first_not_of(s,pos,count)", v.find_first_not_of( nb.data( ), p, nb.size( ) ), sv.find_first_not_of( sn, p ) );
		VF_EQ( c, "find_first_not_of_if(pos)", v.find_first_not_of_if( in_set, p ), sv.find_first_not_of( sn, p ) );
		c.op( "find_last_not_of(v,pos)" );
		VF_EQ( c, "find_last_not_of(v,pos)", v.find_last_not_of( n, p ), sv.find_last_not_of( sn, p ) );
		VF_EQ( c, "find_last_not_of(ch,pos)", v.find_last_not_of( ch, p ), sv.find_last_not_of( ch, p ) );
		VF_EQ( c, "find_last_not_of(zs,pos)", v.find_last_not_of( zneedle.c_str( ), p ), sv.find_last_not_of( sz, p ) );
		VF_EQ( c, "find_last_not_of(s,pos,count)", v.find_last_not_of( nb.data( ), p, nb.size( ) ), sv.find_last_not_of( sn, p ) );
		VF_EQ( c, "find_last_not_of_if(pos)", v.find_last_not_of_if( in_set, p ), sv.find_last_not_of( sn, p ) );
		c.op( "search" );
		VF_EQ( c, "search(v,pos)", v.search( n, p ), sn.empty( ) ? sv.npos : sv.find( sn, p ) );
		{
			size_t last = sv.npos;
			if( not sn.empty( ) )
				for( size_t k = sv.find( sn, p ); k != sv.npos; k = sv.find( sn, k + 1 ) )
					last = k;
			VF_EQ( c, "search_last(v,pos)", v.search_last( n, p ), last );
		}
		// substr
#if defined( NDEBUG )
		if( not inside )
			continue; // range checks are debug only
#endif
		for( size_t cnt : { size_t{ 0 }, size_t{ 1 }, r.below( text.size( ) + 2 ), text.size( ), sv.npos } ) {
			c.op( "substr" );
			bool threw = false;
			bstr<CharT> got;
			try {
				got = to_std( v.substr( p, cnt ) );
			} catch( std::out_of_range const & ) {
				threw = true;
			}
			VF_EQ( c, "substr-throws", threw, not inside );
			if( inside ) {
				VF_EQ( c, "substr", got, text.substr( p, cnt ) );
				VF_EQ( c, "substr-data", v.substr( p, cnt ).data( ), static_cast<CharT const *>( tb.data( ) + p ) );
				if( cnt <= text.size( ) - p )
					VF_EQ( c, "substr_unsafe", to_std( v.substr_unsafe( p, cnt ) ), text.substr( p, cnt ) );
				VF_EQ( c, "substr(pos)", to_std( v.substr( p ) ), text.substr( p ) );
				c.op( "copy" );
				size_t want = std::min( cnt, text.size( ) - p );
				vf::Exact<CharT> dst( bstr<CharT>( want, CharT( '#' ) ).begin( ), want );
				VF_EQ( c, "copy-count", v.copy( dst.data( ), cnt, p ), want );
				VF_EQ( c, "copy", bstr<CharT>( dst.begin( ), dst.end( ) ), text.substr( p, cnt ) );
				c.op( "compare(sub)" );
				VF_EQ( c, "compare(pos,count,v)", sgn( v.compare( p, cnt, n ) ), sgn_cmp<CharT>( text.substr( p, cnt ), needle ) );
				size_t p2 = r.below( needle.size( ) + 1 ), c2 = r.below( needle.size( ) + 2 );
				VF_EQ( c, "compare(pos,count,v,pos2,count2)", sgn( v.compare( p, cnt, n, p2, c2 ) ),
				       sgn_cmp<CharT>( text.substr( p, cnt ), needle.substr( p2, c2 ) ) );
				VF_EQ( c, "compare(pos,count,zs)", sgn( v.compare( p, cnt, zneedle.c_str( ) ) ), sgn_cmp<CharT>( text.substr( p, cnt ), zneedle ) );
				VF_EQ( c, "compare(pos,count,s,count2)", sgn( v.compare( p, cnt, static_cast<CharT const *>( nb.data( ) ), nb.size( ) ) ),
				       sgn_cmp<CharT>( text.substr( p, cnt ), needle ) );
			}
		}
	}
	c.op( "compare" );
	int want = sgn_cmp<CharT>( text, needle );
	VF_EQ( c, "compare", sgn( v.compare( n ) ), want );
	VF_EQ( c, "compare-static", sgn( dsv<CharT>::compare( v, n ) ), want );
	VF_EQ( c, "compare(std::string)", sgn( v.compare( needle ) ), want );
	VF_EQ( c, "compare-reverse", sgn( v.compare( n, []( CharT a, CharT b ) { return b < a; } ) ),
	       [&] {
		       auto cmp = []( CharT a, CharT b ) { return b < a; };
		       if( std::lexicographical_compare( text.begin( ), text.end( ), needle.begin( ), needle.end( ), cmp ) )
			       return -1;
		       if( std::lexicographical_compare( needle.begin( ), needle.end( ), text.begin( ), text.end( ), cmp ) )
			       return 1;
		       return 0;
	       }( ) );
	VF_EQ( c, "==", v == n, want == 0 );
	VF_EQ( c, "!=", v != n, want != 0 );
	VF_EQ( c, "<", v < n, want < 0 );
	VF_EQ( c, "<=", v <= n, want <= 0 );
	VF_EQ( c, ">", v > n, want > 0 );
	VF_EQ( c, ">=", v >= n, want >= 0 );
	VF_EQ( c, "==std", needle == v, want == 0 );
	VF_EQ( c, "==zs", zneedle.c_str( ) == v, sgn_cmp<CharT>( zneedle, text ) == 0 );
	VF_EQ( c, "!=zs", zneedle.c_str( ) != v, sgn_cmp<CharT>( zneedle, text ) != 0 );
	VF_EQ( c, "==self-copy", v == dsv<CharT>( text ), true );
	{
		c.op( "compare with string-like operands" );
		int const zw = sgn_cmp<CharT>( text, zneedle );
		auto rel = [&]( char const *what, auto const &x, int w ) {
			bool const ok = ( v == x ) == ( w == 0 ) and ( x == v ) == ( w == 0 ) and ( v != x ) == ( w != 0 ) and ( x != v ) == ( w != 0 ) and
			                ( v < x ) == ( w < 0 ) and ( x < v ) == ( w > 0 ) and ( v <= x ) == ( w <= 0 ) and ( x <= v ) == ( w >= 0 ) and
			                ( v > x ) == ( w > 0 ) and ( x > v ) == ( w < 0 ) and ( v >= x ) == ( w >= 0 ) and ( x >= v ) == ( w <= 0 );
			VF_TRUE( c, what, ok );
		};
		rel( "relational:std::basic_string", needle, want );
		rel( "relational:std::basic_string_view", sn, want );
		rel( "relational:vector", std::vector<CharT>( needle.begin( ), needle.end( ) ), want );
		rel( "relational:pointer", zneedle.c_str( ), zw );
		CharT const lit[4] = { ch, CharT( 'a' ), CharT( 'b' ), CharT{ } };
		ssv<CharT> const slit( lit, 3 );
		if( ch != CharT{ } ) {
			VF_EQ( c, "compare(array)", sgn( v.compare( lit ) ), sgn_cmp<CharT>( text, bstr<CharT>( slit ) ) );
			VF_EQ( c, "find_last_of(array)", v.find_last_of( lit ), sv.find_last_of( slit ) );
			VF_EQ( c, "find_first_of(array)", v.find_first_of( lit ), sv.find_first_of( slit ) );
			VF_EQ( c, "find_first_not_of(array)", v.find_first_not_of( lit ), sv.find_first_not_of( slit ) );
		}
		VF_EQ( c, "find_last_of(zs)", v.find_last_of( zneedle.c_str( ) ), sv.find_last_of( sz ) );
		VF_EQ( c, "find_last_of(s,npos,count)", v.find_last_of( nb.data( ), sv.npos, nb.size( ) ), sv.find_last_of( sn ) );
		VF_EQ( c, "find_first_not_of(zs)", v.find_first_not_of( zneedle.c_str( ) ), sv.find_first_not_of( sz ) );
		VF_EQ( c, "search(zs)", v.search( zneedle.c_str( ) ), sz.empty( ) ? sv.npos : sv.find( sz ) );
		VF_EQ( c, "search_last(zs)", v.search_last( zneedle.c_str( ) ), sz.empty( ) ? sv.npos : sv.rfind( sz ) );
		size_t const cc = r.below( text.size( ) + 2 ), cw = std::min( cc, text.size( ) );
		vf::Exact<CharT> dst( bstr<CharT>( cw, CharT( '#' ) ).begin( ), cw );
		VF_EQ( c, "copy(dest,count)", v.copy( dst.data( ), cc ), cw );
		VF_EQ( c, "copy(dest,count) contents", bstr<CharT>( dst.begin( ), dst.end( ) ), text.substr( 0, cw ) );
		c.op( "deduction" );
		bstr<CharT> mut = needle;
		std::vector<CharT> const vec( needle.begin( ), needle.end( ) );
		daw::basic_string_view const d1( mut ), d2( needle ), d3( sn ), d4( vec ), d5( n ), d6( mut.data( ), mut.size( ) ), d7( zneedle.c_str( ) ), d8( lit );
		static_assert( std::is_same_v<decltype( d1 ), dsv<CharT> const> and std::is_same_v<decltype( d2 ), dsv<CharT> const> and std::is_same_v<decltype( d3 ), dsv<CharT> const> and std::is_same_v<decltype( d4 ), dsv<CharT> const> and
		               std::is_same_v<decltype( d5 ), dsv<CharT> const> and std::is_same_v<decltype( d6 ), dsv<CharT> const> and std::is_same_v<decltype( d7 ), dsv<CharT> const> and std::is_same_v<decltype( d8 ), dsv<CharT> const> );
		VF_TRUE( c, "deduced views", to_std( d1 ) == needle and to_std( d2 ) == needle and to_std( d3 ) == needle and to_std( d4 ) == needle and to_std( d5 ) == needle and to_std( d6 ) == needle and to_std( d7 ) == zneedle );
	}
	c.op( "starts/ends" );
	VF_EQ( c, "starts_with(v)", v.starts_with( n ), sv.starts_with( sn ) );
	VF_EQ( c, "ends_with(v)", v.ends_with( n ), sv.ends_with( sn ) );
	VF_EQ( c, "starts_with(ch)", v.starts_with( ch ), sv.starts_with( ch ) );
	VF_EQ( c, "ends_with(ch)", v.ends_with( ch ), sv.ends_with( ch ) );
	VF_EQ( c, "starts_with(zs)", v.starts_with( zneedle.c_str( ) ), sv.starts_with( sz ) );
	VF_EQ( c, "ends_with(zs)", v.ends_with( zneedle.c_str( ) ), sv.ends_with( sz ) );
	VF_EQ( c, "contains(zs)", v.contains( zneedle.c_str( ) ), sv.find( sz ) != sv.npos );
	// first match of several needles
	c.op( "find_first_match" );
	auto n2 = rnd_needle<CharT>( r, text, mode );
	auto n3 = rnd_needle<CharT>( r, text, mode );
	if( not needle.empty( ) and not n2.empty( ) and not n3.empty( ) ) {
		size_t p = r.below( text.size( ) + 1 );
		size_t w = std::min( { sv.find( sn, p ), sv.find( ssv<CharT>( n2 ), p ), sv.find( ssv<CharT>( n3 ), p ) } );
		VF_EQ( c, "find_first_match", v.find_first_match( { n, dsv<CharT>( n2 ), dsv<CharT>( n3 ) }, p ), w );
		VF_EQ( c, "find_first_match(v,pos)", v.find_first_match( n, p ), sv.find( sn, p ) );
	}
	c.op( "hash" );
	if constexpr( sizeof( CharT ) == 1 ) {
		VF_EQ( c, "hash-equal", std::hash<dsv<CharT>>{ }( v ), std::hash<dsv<CharT>>{ }( dsv<CharT>( text ) ) );
	}
}
VF_FAMILY( q_char, 5000, 200000 ) { queries<char>( c ); }
VF_FAMILY( q_wchar, 2500, 80000 ) { queries<wchar_t>( c ); }
VF_FAMILY( q_char8, 2500, 80000 ) { queries<char8_t>( c ); }
VF_FAMILY( q_char16, 2500, 80000 ) { queries<char16_t>( c ); }
VF_FAMILY( q_char32, 2500, 80000 ) { queries<char32_t>( c ); }

// default constructed / null views
VF_FAMILY( null_views, 1, 1 ) {
	c.op( "null" );
	dsv<char> v;
	dsv<char> e( "" );
	VF_EQ( c, "null-size", v.size( ), 0u );
	VF_EQ( c, "null-empty", v.empty( ), true );
	VF_EQ( c, "null-find-ch", v.find( 'a' ), v.npos );
	VF_EQ( c, "null-find", v.find( dsv<char>( "a" ) ), v.npos );
	VF_EQ( c, "null-rfind", v.rfind( dsv<char>( "a" ) ), v.npos );
	VF_EQ( c, "null-ffo", v.find_first_of( "a" ), v.npos );
	VF_EQ( c, "null-flo", v.find_last_of( "a" ), v.npos );
	VF_EQ( c, "null-ffno", v.find_first_not_of( "a" ), v.npos );
	VF_EQ( c, "null-flno", v.find_last_not_of( "a" ), v.npos );
	VF_EQ( c, "null-eq", v == e, true );
	VF_EQ( c, "null-cmp", v.compare( e ), 0 );
	VF_EQ( c, "null-starts", v.starts_with( e ), true );
	VF_EQ( c, "null-substr", v.substr( 0, 5 ).size( ), 0u );
	VF_EQ( c, "nullptr-ctor", dsv<char>( nullptr ).size( ), 0u );
	VF_EQ( c, "null-cptr-ctor", dsv<char>( static_cast<char const *>( nullptr ) ).size( ), 0u );
	c.nontrivial( 1 );
}

VF_FAMILY( literals, 1, 1 ) {
	using namespace daw::string_view_literals;
	c.op( "_sv" );
	using namespace std::string_view_literals;
	VF_TRUE( c, "_sv:char", to_std( "a\0bc"_sv ) == "a\0bc"sv and to_std( ""_sv ).empty( ) );
	VF_TRUE( c, "_sv:char8_t", to_std( u8"a\0bc"_sv ) == u8"a\0bc"sv );
	VF_TRUE( c, "_sv:char16_t", to_std( u"a\0bc"_sv ) == u"a\0bc"sv );
	VF_TRUE( c, "_sv:char32_t", to_std( U"a\0bc"_sv ) == U"a\0bc"sv );
	VF_TRUE( c, "_sv:wchar_t", to_std( L"a\0bc"_sv ) == L"a\0bc"sv );
	static_assert( "abcab"_sv.find( 'b', 2 ) == 4 and L"abcab"_sv.find( L'b', 2 ) == 4 and u"abcab"_sv.find( u'q' ) == daw::u16string_view::npos and U"abcab"_sv.rfind( U'a' ) == 3 );
	static_assert( "abcab"_sv.find( "ab", 1 ) == 3 and "abcab"_sv.find_first_not_of( "ab" ) == 2 and "abcab"_sv.substr( 1, 2 ) == "bc"_sv and ( "ab"_sv <=> "b"_sv ) < 0 );
	c.nontrivial( 2 );
}

// stream insertion honours width / fill / alignment exactly like std
VF_FAMILY( stream, 1500, 30000 ) {
	auto &r = c.rng;
	auto text = rnd_text<char>( r, 1, 12 );
	vf::Exact<char> tb{ std::string_view( text ) };
	dsv<char> v( tb.data( ), tb.size( ) );
	int w = static_cast<int>( r.below( r.coin( ) ? 40 : 400 ) );
	char fill = r.coin( ) ? '*' : ' ';
	int al = static_cast<int>( r.below( 4 ) );
	std::ostringstream a, b;
	auto setup = [&]( std::ostream &os ) {
		os << std::setw( w ) << std::setfill( fill );
		if( al == 0 )
			os << std::left;
		if( al == 1 )
			os << std::right;
		if( al == 3 )
			os << std::internal << std::showpos << std::hex << std::uppercase;
	};
	c.ctx( "text=", esc( text ).c_str( ), " w=", w, " al=", al );
	setup( a );
	setup( b );
	c.op( "operator<<" );
	a << v;
	b << std::string_view( text );
	VF_EQ( c, "stream", a.str( ), b.str( ) );
	a << 7;
	b << 7;
	VF_EQ( c, "stream-width-reset", a.str( ), b.str( ) );
	if( static_cast<size_t>( w ) > text.size( ) )
		c.nontrivial( vf::mix( vf::hash_str( text ), w * 4 + al ) );
}
VF_MAIN( )
