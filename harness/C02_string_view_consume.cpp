#include "sv_common.h"

// The monitored view is a window [b,e) of one exact heap buffer.  Every
// consuming operation is checked against a reference splitter: contents of the
// result, contents and position of what remains.
template<typename CharT>
struct World {
	vf::Case &c;
	bstr<CharT> text;
	vf::Exact<CharT> buf;
	dsv<CharT> v;
	size_t b, e;
	std::string trace;

	World( vf::Case &cc, bstr<CharT> t )
	  : c( cc ), text( t ), buf( ssv<CharT>( text ) ), v( buf.data( ), buf.size( ) ), b( 0 ), e( text.size( ) ) {}
	bstr<CharT> cur( ) const { return text.substr( b, e - b ); }

	void state( char const *op ) {
		c.eq( ( std::string( op ) + ":rest" ).c_str( ), to_std( v ), cur( ) );
		if( e != b )
			c.eq( ( std::string( op ) + ":rest-position" ).c_str( ), v.data( ), static_cast<CharT const *>( buf.data( ) + b ) );
		if( c.failed )
			throw vf::abort_case{ };
	}
	void result( char const *op, dsv<CharT> r, size_t rb, size_t re ) {
		c.eq( ( std::string( op ) + ":result" ).c_str( ), to_std( r ), text.substr( rb, re - rb ) );
		if( re != rb )
			c.eq( ( std::string( op ) + ":result-position" ).c_str( ), r.data( ), static_cast<CharT const *>( buf.data( ) + rb ) );
		state( op );
	}
};

// kind of delimiter
template<typename CharT, typename Call>
static void until_op( World<CharT> &w, char const *name, bool front, bool try_, bool nodisc, bool found, size_t pos, size_t dlen, Call call ) {
	size_t const b = w.b, e = w.e;
	size_t rb, re;
	if( found ) {
		if( front ) {
			rb = b;
			re = b + pos;
			w.b = b + pos + ( nodisc ? 0 : dlen );
		} else {
			rb = b + pos + dlen;
			re = e;
			w.e = b + pos + ( nodisc ? dlen : 0 );
		}
	} else if( try_ ) {
		rb = re = b;
	} else {
		rb = b;
		re = e;
		w.b = e;
	}
	w.c.op( name );
	auto r = call( );
	w.result( name, r, rb, re );
}

template<typename CharT>
static void history( vf::Case &c ) {
	auto &r = c.rng;
	unsigned mode = static_cast<unsigned>( r.below( 3 ) );
	World<CharT> w( c, rnd_text<CharT>( r, mode, 20 ) );
	auto const &text = w.text;
	std::string tr;
	bool nontriv = false;
	size_t steps = 1 + r.below( 14 );
	auto is_sp = []( CharT x ) {
		return x == CharT( ' ' ) or x == CharT( '\t' ) or x == CharT( '\n' ) or x == CharT( '\v' ) or x == CharT( '\f' ) or x == CharT( '\r' );
	};
	for( size_t s = 0; s < steps; ++s ) {
		auto cur = w.cur( );
		ssv<CharT> sc( cur );
		auto needle = rnd_needle<CharT>( r, cur, mode );
		CharT ch = ( not cur.empty( ) and r.coin( ) ) ? cur[r.below( cur.size( ) )] : pick_char<CharT>( r, mode );
		auto pred = [&needle]( CharT x ) { return needle.find( x ) != bstr<CharT>::npos; };
		vf::Exact<CharT> nb{ ssv<CharT>( needle ) };
		dsv<CharT> n( nb.data( ), nb.size( ) );
		ssv<CharT> sn( needle );
		size_t op = r.below( 46 );
		tr += " " + std::to_string( op );
		c.ctx( "text=", esc( text ).c_str( ), " cur=", esc( cur ).c_str( ), " needle=", esc( needle ).c_str( ), " ch=", (unsigned long)ch, " ops:", tr.c_str( ) );
		auto F = [&]( size_t p ) { return p != sc.npos; };
		auto &v = w.v;
		using daw::nodiscard;
		size_t p;
		switch( op ) {
#define U( name, front, try_, nd, findexpr, dlen, callexpr ) \
	p = findexpr;                                              \
	nontriv |= F( p );                                         \
	until_op( w, name, front, try_, nd, F( p ), p, dlen, [&] { return callexpr; } ); \
	break
		case 0: U( "pop_front_until(v)", true, false, false, sc.find( sn ), sn.size( ), v.pop_front_until( n ) );
		case 1: U( "pop_front_until(v,nodiscard)", true, false, true, sc.find( sn ), sn.size( ), v.pop_front_until( n, nodiscard ) );
		case 2: U( "pop_front_until(ch)", true, false, false, sc.find( ch ), 1, v.pop_front_until( ch ) );
		case 3: U( "pop_front_until(ch,nodiscard)", true, false, true, sc.find( ch ), 1, v.pop_front_until( ch, nodiscard ) );
		case 4: U( "pop_front_until(pred)", true, false, false, sc.find_first_of( sn ), 1, v.pop_front_until( pred ) );
		case 5: U( "pop_front_until(pred,nodiscard)", true, false, true, sc.find_first_of( sn ), 1, v.pop_front_until( pred, nodiscard ) );
		case 6: U( "pop_back_until(v)", false, false, false, sc.rfind( sn ), sn.size( ), v.pop_back_until( n ) );
		case 7: U( "pop_back_until(v,nodiscard)", false, false, true, sc.rfind( sn ), sn.size( ), v.pop_back_until( n, nodiscard ) );
		case 8: U( "pop_back_until(ch)", false, false, false, sc.rfind( ch ), 1, v.pop_back_until( ch ) );
		case 9: U( "pop_back_until(ch,nodiscard)", false, false, true, sc.rfind( ch ), 1, v.pop_back_until( ch, nodiscard ) );
		case 10: U( "pop_back_until(pred)", false, false, false, sc.find_last_of( sn ), 1, v.pop_back_until( pred ) );
		case 11: U( "pop_back_until(pred,nodiscard)", false, false, true, sc.find_last_of( sn ), 1, v.pop_back_until( pred, nodiscard ) );
		case 12: U( "try_pop_front_until(v)", true, true, false, sc.find( sn ), sn.size( ), v.try_pop_front_until( n ) );
		case 13: U( "try_pop_front_until(v,nodiscard)", true, true, true, sc.find( sn ), sn.size( ), v.try_pop_front_until( n, nodiscard ) );
		case 14: U( "try_pop_front_until(ch)", true, true, false, sc.find( ch ), 1, v.try_pop_front_until( ch ) );
		case 15: U( "try_pop_front_until(ch,nodiscard)", true, true, true, sc.find( ch ), 1, v.try_pop_front_until( ch, nodiscard ) );
		case 16: U( "try_pop_front_until(pred)", true, true, false, sc.find_first_of( sn ), 1, v.try_pop_front_until( pred ) );
		case 17: U( "try_pop_front_until(pred,nodiscard)", true, true, true, sc.find_first_of( sn ), 1, v.try_pop_front_until( pred, nodiscard ) );
		case 18: U( "try_pop_back_until(v)", false, true, false, sc.rfind( sn ), sn.size( ), v.try_pop_back_until( n ) );
		case 19: U( "try_pop_back_until(v,nodiscard)", false, true, true, sc.rfind( sn ), sn.size( ), v.try_pop_back_until( n, nodiscard ) );
		case 20: U( "try_pop_back_until(ch)", false, true, false, sc.rfind( ch ), 1, v.try_pop_back_until( ch ) );
		case 21: U( "try_pop_back_until(ch,nodiscard)", false, true, true, sc.rfind( ch ), 1, v.try_pop_back_until( ch, nodiscard ) );
		case 22: U( "try_pop_back_until(pred)", false, true, false, sc.find_last_of( sn ), 1, v.try_pop_back_until( pred ) );
		case 23: U( "try_pop_back_until(pred,nodiscard)", false, true, true, sc.find_last_of( sn ), 1, v.try_pop_back_until( pred, nodiscard ) );
		// while
		case 24: U( "pop_front_while(ch)", true, false, true, sc.find_first_not_of( ch ), 1, v.pop_front_while( ch ) );
		case 25: U( "pop_front_while(v)", true, false, true, sc.find_first_not_of( sn ), 1, v.pop_front_while( n ) );
		case 26: U( "pop_front_while(pred)", true, false, true, sc.find_first_not_of( sn ), 1, v.pop_front_while( pred ) );
		// remove_prefix_until: like pop, result dropped
#define RM( name, nd, findexpr, dlen, callexpr )               \
	p = findexpr;                                                \
	nontriv |= F( p );                                           \
	c.op( name );                                                \
	w.b = F( p ) ? w.b + p + ( nd ? 0 : dlen ) : w.e;            \
	{                                                            \
		auto &ref = callexpr;                                      \
		c.truth( name ":returns-self", &ref == &v );               \
	}                                                            \
	w.state( name );                                             \
	break
		case 27: RM( "remove_prefix_until(v)", false, sc.find( sn ), sn.size( ), v.remove_prefix_until( n ) );
		case 28: RM( "remove_prefix_until(v,nodiscard)", true, sc.find( sn ), sn.size( ), v.remove_prefix_until( n, nodiscard ) );
		case 29: RM( "remove_prefix_until(ch)", false, sc.find( ch ), 1, v.remove_prefix_until( ch ) );
		case 30: RM( "remove_prefix_until(ch,nodiscard)", true, sc.find( ch ), 1, v.remove_prefix_until( ch, nodiscard ) );
		case 31: RM( "remove_prefix_until(pred)", false, sc.find_first_of( sn ), 1, v.remove_prefix_until( pred ) );
		case 32: RM( "remove_prefix_until(pred,nodiscard)", true, sc.find_first_of( sn ), 1, v.remove_prefix_until( pred, nodiscard ) );
		case 33: RM( "remove_prefix_while(pred)", true, sc.find_first_not_of( sn ), 1, v.remove_prefix_while( pred ) );
		case 34: RM( "remove_prefix_while(ch)", true, sc.find_first_not_of( ch ), 1, v.remove_prefix_while( ch ) );
		case 35: {
			p = r.coin( ) ? sc.find_last_not_of( sn ) : sc.find_last_not_of( ch );
			bool bych = r.coin( );
			p = bych ? sc.find_last_not_of( ch ) : sc.find_last_not_of( sn );
			c.op( bych ? "remove_suffix_while(ch)" : "remove_suffix_while(pred)" );
			if( bych )
				v.remove_suffix_while( ch );
			else
				v.remove_suffix_while( pred );
			w.e = w.b + ( F( p ) ? p + 1 : 0 );
			w.state( bych ? "remove_suffix_while(ch)" : "remove_suffix_while(pred)" );
			break;
		}
		case 36:
		case 37: {
			size_t f = 0, l = cur.size( );
			unsigned k = static_cast<unsigned>( r.below( 6 ) );
			if( k != 1 and k != 4 )
				while( f < l and is_sp( cur[f] ) )
					++f;
			if( k != 0 and k != 3 )
				while( l > f and is_sp( cur[l - 1] ) )
					--l;
			nontriv |= ( f > 0 or l < cur.size( ) );
			size_t nb_ = w.b + f, ne = w.b + l;
			if( k < 3 ) {
				c.op( "trim" );
				w.b = nb_;
				w.e = ne;
				if( k == 0 )
					v.trim_prefix( );
				else if( k == 1 )
					v.trim_suffix( );
				else
					v.trim( );
				w.state( k == 0 ? "trim_prefix" : k == 1 ? "trim_suffix" : "trim" );
			} else {
				c.op( "trim_copy" );
				auto res = k == 3 ? v.trim_prefix_copy( ) : k == 4 ? v.trim_suffix_copy( ) : v.trim_copy( );
				w.result( k == 3 ? "trim_prefix_copy" : k == 4 ? "trim_suffix_copy" : "trim_copy", res, nb_, ne );
			}
			break;
		}
		case 38: {
			size_t cnt = r.chance( 1, 6 ) ? size_t( -1 ) : r.below( cur.size( ) + 3 );
			size_t k = std::min( cnt, cur.size( ) );
			size_t b0 = w.b;
			w.b += k;
			c.op( "pop_front(n)" );
			auto res = v.pop_front( cnt );
			w.result( "pop_front(n)", res, b0, b0 + k );
			break;
		}
		case 39: {
			size_t cnt = r.chance( 1, 6 ) ? size_t( -1 ) : r.below( cur.size( ) + 3 );
			size_t k = std::min( cnt, cur.size( ) );
			size_t e0 = w.e;
			w.e -= k;
			c.op( "pop_back(n)" );
			auto res = v.pop_back( cnt );
			w.result( "pop_back(n)", res, e0 - k, e0 );
			break;
		}
		case 40: {
			bool front = r.coin( );
			size_t k = r.below( cur.size( ) + 1 );
			size_t b0 = w.b, e0 = w.e;
			if( front ) {
				w.b += k;
				c.op( "pop_front_unsafe(n)" );
				auto res = v.pop_front_unsafe( k );
				w.result( "pop_front_unsafe(n)", res, b0, b0 + k );
			} else {
				w.e -= k;
				c.op( "pop_back_unsafe(n)" );
				auto res = v.pop_back_unsafe( k );
				w.result( "pop_back_unsafe(n)", res, e0 - k, e0 );
			}
			break;
		}
		case 41: {
			if( cur.empty( ) ) {
#if not defined( NDEBUG )
				c.op( "pop-char-empty" );
				int t = 0;
				try {
					(void)v.pop_front( );
				} catch( std::out_of_range const & ) {
					++t;
				}
				try {
					(void)v.pop_back( );
				} catch( std::out_of_range const & ) {
					++t;
				}
				c.eq( "pop-char-empty-throws", t, 2 );
				w.state( "pop-char-empty" );
#endif
				break;
			}
			bool front = r.coin( ), uns = r.coin( );
			c.op( "pop-char" );
			CharT got = front ? ( uns ? v.pop_front_unsafe( ) : v.pop_front( ) ) : ( uns ? v.pop_back_unsafe( ) : v.pop_back( ) );
			c.eq( front ? "pop_front()" : "pop_back()", got, front ? cur.front( ) : cur.back( ) );
			if( front )
				++w.b;
			else
				--w.e;
			w.state( front ? "pop_front()" : "pop_back()" );
			break;
		}
		case 42: {
			size_t cnt = r.chance( 1, 6 ) ? size_t( -1 ) : r.below( cur.size( ) + 3 );
			size_t k = std::min( cnt, cur.size( ) );
			bool front = r.coin( );
			bool one = r.chance( 1, 3 );
			if( one )
				k = std::min<size_t>( 1, cur.size( ) );
			c.op( front ? "remove_prefix" : "remove_suffix" );
			if( front ) {
				one ? v.remove_prefix( ) : v.remove_prefix( cnt );
				w.b += k;
			} else {
				one ? v.remove_suffix( ) : v.remove_suffix( cnt );
				w.e -= k;
			}
			w.state( front ? "remove_prefix" : "remove_suffix" );
			break;
		}
		case 43: {
			size_t k = r.below( cur.size( ) + 1 );
			bool front = r.coin( );
			c.op( "remove_unsafe" );
			if( front ) {
				v.remove_prefix_unsafe( k );
				w.b += k;
			} else {
				v.remove_suffix_unsafe( k );
				w.e -= k;
			}
			w.state( front ? "remove_prefix_unsafe" : "remove_suffix_unsafe" );
#if not defined( NDEBUG )
			bool t = false;
			try {
				v.remove_prefix_unsafe( v.size( ) + 1 );
			} catch( std::out_of_range const & ) { t = true; }
			c.truth( "remove_prefix_unsafe-throws", t );
			t = false;
			try {
				v.remove_suffix_unsafe( v.size( ) + 1 );
			} catch( std::out_of_range const & ) { t = true; }
			c.truth( "remove_suffix_unsafe-throws", t );
			w.state( "remove_unsafe-throws" );
#endif
			break;
		}
		case 44: {
			size_t k = r.below( cur.size( ) + 1 );
			c.op( "resize" );
			v.resize( k );
			w.e = w.b + k;
			w.state( "resize" );
			break;
		}
		case 45: {
			// expand back over characters removed earlier
			c.op( "expand" );
			bool front = r.coin( );
			size_t room = front ? w.b : text.size( ) - w.e;
			if( room == 0 or v.data( ) == nullptr )
				break;
			if( cur.empty( ) )
				break; // position of an empty remainder is not specified
			size_t k = 1 + r.below( room );
			if( front ) {
				if( k == 1 )
					v.expand_prefix( );
				else
					v.expand_prefix( k );
				w.b -= k;
			} else {
				if( k == 1 )
					v.expand_suffix( );
				else
					v.expand_suffix( k );
				w.e += k;
			}
			w.state( front ? "expand_prefix" : "expand_suffix" );
			break;
		}
		}
	}
	if( nontriv )
		c.nontrivial( vf::mix( hash_text( text ), vf::hash_str( tr ) ) + sizeof( CharT ) );
	c.count( "operations", steps );
}
VF_FAMILY( h_char, 40000, 1500000 ) { history<char>( c ); }
VF_FAMILY( h_wchar, 8000, 300000 ) { history<wchar_t>( c ); }
VF_FAMILY( h_char16, 8000, 300000 ) { history<char16_t>( c ); }
VF_FAMILY( h_char32, 8000, 300000 ) { history<char32_t>( c ); }

// splitting with pop_front_until / pop_back_until reproduces the whole text
VF_FAMILY( split_all, 6000, 100000 ) {
	auto &r = c.rng;
	auto text = rnd_text<char>( r, static_cast<unsigned>( r.below( 2 ) ), 30 );
	char d = r.coin( ) ? ',' : 'a';
	c.ctx( "text=", esc( text ).c_str( ), " delim=", d );
	vf::Exact<char> tb{ std::string_view( text ) };
	{
		daw::sv2::string_view v( tb.data( ), tb.size( ) );
		std::string join;
		size_t parts = 0;
		c.op( "split-front" );
		while( not v.empty( ) ) {
			bool more = v.contains( d );
			auto part = v.pop_front_until( d );
			join.append( part.data( ), part.size( ) );
			if( more )
				join.push_back( d );
			if( ++parts > text.size( ) + 1 ) {
				c.fail( "split-front-terminates", "too many parts" );
				return;
			}
		}
		VF_EQ( c, "split-front-join", join, text );
	}
	{
		daw::sv2::string_view v( tb.data( ), tb.size( ) );
		std::string join;
		size_t parts = 0;
		c.op( "split-back" );
		while( not v.empty( ) ) {
			bool more = v.contains( d );
			auto part = v.pop_back_until( d );
			join.insert( 0, std::string( part.data( ), part.size( ) ) );
			if( more )
				join.insert( 0, 1, d );
			if( ++parts > text.size( ) + 1 ) {
				c.fail( "split-back-terminates", "too many parts" );
				return;
			}
		}
		VF_EQ( c, "split-back-join", join, text );
	}
	if( text.find( d ) != text.npos )
		c.nontrivial( vf::hash_str( text ) + d );
}

// the predefined character-class predicates select exactly their set
VF_FAMILY( any_none_of, 256, 256 ) {
	char ch = static_cast<char>( c.idx );
	VF_EQ( c, "any_of", daw::any_of<'a', 'q', ' ', '\x80'>( ch ), ch == 'a' or ch == 'q' or ch == ' ' or ch == '\x80' );
	VF_EQ( c, "none_of", daw::none_of<'a', 'q', ' ', '\x80'>( ch ), not( ch == 'a' or ch == 'q' or ch == ' ' or ch == '\x80' ) );
	c.nontrivial( c.idx );
}
// the blanks: the six of the C locale, whatever else surrounds them
template<typename CharT>
static void blanks_case( vf::Case &c ) {
	auto &r = c.rng;
	bstr<CharT> text;
	auto blank = [&] {
		static constexpr char sp[] = " \t\n\v\f\r";
		return static_cast<CharT>( sp[r.below( 6 )] );
	};
	auto is_sp = []( CharT x ) { return x == 32 or ( x >= 9 and x <= 13 ); };
	auto other = [&] {
		// the neighbours of the blanks, and the high half of the code units
		static constexpr int nb[] = { 0, 1, 7, 8, 14, 15, 31, 33, 0x7F, 0x80, 0x85, 0x89, 0x8B, 0xA0, 0xFF };
		if constexpr( sizeof( CharT ) > 1 )
			if( r.chance( 1, 4 ) )
				return static_cast<CharT>( ( 1 + r.below( 3 ) ) * 256 + ( r.coin( ) ? 32 : 9 + r.below( 5 ) ) );
		return static_cast<CharT>( nb[r.below( 15 )] );
	};
	auto part = [&]( bool bl ) {
		for( size_t k = r.below( r.chance( 1, 30 ) ? 300 : 5 ); k > 0; --k )
			text.push_back( bl ? blank( ) : other( ) );
	};
	for( size_t k = 0; k < 5; ++k )
		part( k % 2 == 0 );
	vf::Exact<CharT> tb( text.data( ), text.size( ) );
	size_t f = 0, l = text.size( );
	while( f < l and is_sp( text[f] ) )
		++f;
	while( l > f and is_sp( text[l - 1] ) )
		--l;
	auto view = [&] { return dsv<CharT>( tb.data( ), tb.size( ) ); };
	auto a = view( );
	a.trim_prefix( );
	VF_EQ( c, "blanks/trim_prefix", to_std( a ), text.substr( f ) );
	a = view( );
	a.trim_suffix( );
	VF_EQ( c, "blanks/trim_suffix", to_std( a ), text.substr( 0, l == f ? 0 : l ) );
	a = view( );
	a.trim( );
	VF_EQ( c, "blanks/trim", to_std( a ), text.substr( f, l - f ) );
	VF_EQ( c, "blanks/trim_prefix_copy", to_std( view( ).trim_prefix_copy( ) ), text.substr( f ) );
	VF_EQ( c, "blanks/trim_suffix_copy", to_std( view( ).trim_suffix_copy( ) ), text.substr( 0, l == f ? 0 : l ) );
	VF_EQ( c, "blanks/trim_copy", to_std( view( ).trim_copy( ) ), text.substr( f, l - f ) );
	if( f > 0 or l < text.size( ) )
		c.nontrivial( vf::mix( f, vf::mix( l, text.size( ) ) ) );
}
VF_FAMILY( blanks, 4000, 100000 ) {
	switch( c.idx % 3 ) {
	case 0: return blanks_case<char>( c );
	case 1: return blanks_case<wchar_t>( c );
	default: return blanks_case<char16_t>( c );
	}
}

VF_MAIN( )
