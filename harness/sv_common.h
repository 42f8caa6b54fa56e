#pragma once
#include "vf.h"
#include <daw/daw_string_view.h>
#include <string>
#include <string_view>

template<typename CharT>
using dsv = daw::sv2::basic_string_view<CharT>;
template<typename CharT>
using ssv = std::basic_string_view<CharT>;
template<typename CharT>
using bstr = std::basic_string<CharT>;

template<typename CharT>
CharT pick_char( vf::Rng &r, unsigned mode ) {
	// small alphabets make matches frequent; mode 3 uses the whole domain
	switch( mode ) {
	case 0: return static_cast<CharT>( 'a' + r.below( 2 ) );
	case 1: return static_cast<CharT>( "ab \t\n,"[r.below( 6 )] );
	case 2: {
		static constexpr unsigned tbl[] = { 0, 1, 0x7f, 0x80, 0xff, 'a', 'b', ' ' };
		return static_cast<CharT>( tbl[r.below( 8 )] );
	}
	default:
		if constexpr( sizeof( CharT ) == 1 )
			return static_cast<CharT>( r.below( 256 ) );
		else if constexpr( sizeof( CharT ) == 2 ) {
			static constexpr unsigned tbl[] = { 0x0061, 0x6100, 0x0161, 0x6161, 0xffff, 0, 0x0100, 0x00ff };
			return static_cast<CharT>( r.coin( ) ? tbl[r.below( 8 )] : r.below( 0x10000 ) );
		} else {
			static constexpr unsigned tbl[] = { 0x61, 0x6100, 0x610061, 0x10ffff, 0x10061, 0, 0x100, 0xffff };
			return static_cast<CharT>( r.coin( ) ? tbl[r.below( 8 )] : r.below( 0x110000 ) );
		}
	}
}
template<typename CharT>
bstr<CharT> rnd_text( vf::Rng &r, unsigned mode, size_t maxlen ) {
	size_t n = r.chance( 1, 8 ) ? r.below( maxlen * 4 + 1 ) : r.below( maxlen + 1 );
	if( r.chance( 1, 150 ) )
		n = 60 + r.below( 300 );
	bstr<CharT> s;
	for( size_t i = 0; i < n; ++i )
		s.push_back( pick_char<CharT>( r, mode ) );
	return s;
}
// a needle: random or a slice of the text (so that it occurs), possibly mutated
template<typename CharT>
bstr<CharT> rnd_needle( vf::Rng &r, bstr<CharT> const &text, unsigned mode ) {
	if( not text.empty( ) and r.chance( 2, 3 ) ) {
		size_t p = r.below( text.size( ) + 1 );
		auto n = text.substr( p, r.below( 5 ) );
		if( r.chance( 1, 10 ) )
			n = text;
		if( not n.empty( ) and r.chance( 1, 4 ) )
			n[r.below( n.size( ) )] = pick_char<CharT>( r, mode );
		if( r.chance( 1, 8 ) )
			n.push_back( pick_char<CharT>( r, mode ) );
		return n;
	}
	bstr<CharT> n;
	for( size_t k = r.below( 4 ); k > 0; --k )
		n.push_back( pick_char<CharT>( r, mode ) );
	return n;
}
template<typename CharT>
std::string esc( bstr<CharT> const &s ) {
	std::string o = "\"";
	for( auto ch : s ) {
		auto u = static_cast<unsigned long>( static_cast<std::make_unsigned_t<std::conditional_t<sizeof( CharT ) == 1, char, std::conditional_t<sizeof( CharT ) == 2, short, int>>>>( ch ) );
		char b[16];
		if( u >= 0x20 and u < 0x7f )
			std::snprintf( b, sizeof b, "%c", static_cast<char>( u ) );
		else
			std::snprintf( b, sizeof b, "\\x%lx.", u );
		o += b;
	}
	return o + "\"";
}
template<typename CharT>
uint64_t hash_text( bstr<CharT> const &s ) {
	return vf::hash_str( std::string_view( reinterpret_cast<char const *>( s.data( ) ), s.size( ) * sizeof( CharT ) ) );
}
template<typename CharT>
int sgn_cmp( bstr<CharT> const &a, bstr<CharT> const &b ) {
	if( std::lexicographical_compare( a.begin( ), a.end( ), b.begin( ), b.end( ) ) )
		return -1;
	if( std::lexicographical_compare( b.begin( ), b.end( ), a.begin( ), a.end( ) ) )
		return 1;
	return 0;
}
template<typename CharT>
bstr<CharT> to_std( dsv<CharT> v ) {
	return bstr<CharT>( v.data( ), v.data( ) + v.size( ) );
}
