#include "sv_common.h"
#include <optional>

// A view over a heap buffer that either has a terminator after the text or
// ends exactly with it.  Whenever the view claims zero termination the
// character at data()+size() must exist and be zero.
template<typename CharT>
struct Buf {
	bstr<CharT> text;
	size_t alloc;
	CharT *p;
	Buf( bstr<CharT> t, bool term ) : text( t ), alloc( t.size( ) + ( term ? 1 : 0 ) ), p( new CharT[alloc] ) {
		for( size_t i = 0; i < t.size( ); ++i )
			p[i] = t[i];
		if( term )
			p[t.size( )] = CharT{ };
	}
	Buf( Buf const & ) = delete;
	~Buf( ) { delete[] p; }
};

template<typename CharT>
static bool check_flag( vf::Case &c, char const *op, dsv<CharT> const &v, Buf<CharT> const &b ) {
	if( not static_cast<bool>( v.is_zero_terminated( ) ) )
		return false;
	if( v.data( ) == nullptr ) {
		c.fail( std::string( op ) + ":null-claims-termination", "null view claims zero termination" );
		return false;
	}
	auto off = v.data( ) - b.p;
	if( off < 0 or static_cast<size_t>( off ) > b.alloc ) {
		c.fail( std::string( op ) + ":foreign-view", "view left its buffer" );
		return false;
	}
	size_t endi = static_cast<size_t>( off ) + v.size( );
	++c.run.checks;
	if( endi >= b.alloc ) {
		c.fail( std::string( op ) + ":false-termination-claim", "claims zero termination but data()+size() is the end of the buffer" );
		throw vf::abort_case{ };
	}
	if( b.p[endi] != CharT{ } ) {
		c.fail( std::string( op ) + ":false-termination-claim", "claims zero termination but data()[size()] is not zero" );
		throw vf::abort_case{ };
	}
	return true;
}

template<typename CharT>
static void check_cstr( vf::Case &c, char const *op, dsv<CharT> const &v, bstr<CharT> const &want ) {
	c.op( "get_c_str" );
	auto z = v.get_c_str( );
	CharT const *s = z.c_str( );
	size_t n = 0;
	while( s[n] != CharT{ } )
		++n;
	c.eq( ( std::string( op ) + ":c_str" ).c_str( ), bstr<CharT>( s, n ), want );
	c.eq( ( std::string( op ) + ":c_str-size" ).c_str( ), z.size( ), want.size( ) );
	c.truth( ( std::string( op ) + ":c_str-data" ).c_str( ), z.data( ) == z.c_str( ) );
	CharT const *conv = z;
	c.truth( ( std::string( op ) + ":c_str-conv" ).c_str( ), conv == z.c_str( ) );
	c.eq( ( std::string( op ) + ":c_str-string" ).c_str( ), z.string( ), want );
	c.eq( ( std::string( op ) + ":c_str-string-rv" ).c_str( ), v.get_c_str( ).string( ), want );
	auto const &kz = z;
	c.eq( ( std::string( op ) + ":c_str-string-const" ).c_str( ), kz.string( ), want );
	c.eq( ( std::string( op ) + ":c_str-to-string" ).c_str( ), static_cast<bstr<CharT>>( kz ), want );
	c.eq( ( std::string( op ) + ":c_str-to-view" ).c_str( ), bstr<CharT>( static_cast<std::basic_string_view<CharT>>( kz ) ), want );
	c.eq( ( std::string( op ) + ":c_str-string-const-rv" ).c_str( ), std::move( kz ).string( ), want );
	if( static_cast<bool>( v.is_zero_terminated( ) ) )
		c.truth( ( std::string( op ) + ":c_str-no-copy" ).c_str( ), s == v.data( ) );
}

template<typename CharT>
static void bounds( vf::Case &c ) {
	auto &r = c.rng;
	bool term = r.coin( );
	// no zeros inside: get_c_str requires that
	bstr<CharT> text;
	for( size_t n = r.below( 14 ); n > 0; --n )
		text.push_back( static_cast<CharT>( "ab ,"[r.below( 4 )] ) );
	Buf<CharT> b( text, term );
	c.ctx( "text=", esc( text ).c_str( ), " terminated=", term );
	dsv<CharT> v;
	char const *how = "";
	if( term ) {
		switch( r.below( 5 ) ) {
		case 0: v = dsv<CharT>( static_cast<CharT const *>( b.p ) ); how = "ctor(ptr)"; break;
		case 1: v = dsv<CharT>( b.p, text.size( ), daw::sv2::zero_terminated ); how = "ctor(ptr,n,zt)"; break;
		case 2: v = dsv<CharT>( b.p, b.p + text.size( ), daw::sv2::zero_terminated ); how = "ctor(ptr,ptr,zt)"; break;
		case 3: v = dsv<CharT>( b.p, text.size( ) ); v.set_zero_terminated( ); how = "set_zero_terminated"; break;
		default: v = dsv<CharT>( b.p, text.size( ) ); how = "ctor(ptr,n)"; break;
		}
	} else {
		switch( r.below( 3 ) ) {
		case 0: v = dsv<CharT>( b.p, text.size( ) ); how = "ctor(ptr,n)"; break;
		case 1: v = dsv<CharT>( b.p, b.p + text.size( ) ); how = "ctor(ptr,ptr)"; break;
		default: v = dsv<CharT>( ssv<CharT>( b.p, text.size( ) ) ); how = "ctor(std::string_view)"; break;
		}
	}
	c.op( how );
	bool claims = check_flag( c, how, v, b );
	c.eq( ( std::string( how ) + ":contents" ).c_str( ), to_std( v ), text );
	check_cstr( c, how, v, text );
	c.count( claims ? "started-terminated" : "started-unterminated" );
	size_t lost = 0;
	size_t steps = 1 + r.below( 10 );
	for( size_t s = 0; s < steps; ++s ) {
		auto cur = to_std( v );
		size_t k = r.below( cur.size( ) + 1 );
		size_t pos = r.below( cur.size( ) + 1 );
		CharT ch = static_cast<CharT>( "ab ,"[r.below( 4 )] );
		auto nd = rnd_needle<CharT>( r, cur, 0 );
		dsv<CharT> n( nd );
		auto pred = [ch]( CharT x ) { return x == ch; };
		dsv<CharT> res;
		dsv<CharT> copy = v;
		bool have_res = true;
		char const *op = "";
		switch( r.below( 36 ) ) {
		case 0: op = "substr(pos,n)"; c.op( op ); res = v.substr( pos, k ); break;
		case 1: op = "substr(pos)"; c.op( op ); res = v.substr( pos ); break;
		case 2: op = "substr()"; c.op( op ); res = v.substr( ); break;
		case 3: op = "substr_unsafe(pos)"; c.op( op ); res = v.substr_unsafe( pos ); break;
		case 4: op = "substr_unsafe(pos,n)"; c.op( op ); res = v.substr_unsafe( pos, r.below( cur.size( ) - pos + 1 ) ); break;
		case 5: op = "pop_front(n)"; c.op( op ); res = v.pop_front( k ); break;
		case 6: op = "pop_back(n)"; c.op( op ); res = v.pop_back( k ); break;
		case 7: op = "pop_front_unsafe(n)"; c.op( op ); res = v.pop_front_unsafe( k ); break;
		case 8: op = "pop_back_unsafe(n)"; c.op( op ); res = v.pop_back_unsafe( k ); break;
		case 9: op = "pop_front_until(v)"; c.op( op ); res = v.pop_front_until( n ); break;
		case 10: op = "pop_front_until(ch,nd)"; c.op( op ); res = v.pop_front_until( ch, daw::nodiscard ); break;
		case 11: op = "pop_back_until(v)"; c.op( op ); res = v.pop_back_until( n ); break;
		case 12: op = "pop_back_until(ch)"; c.op( op ); res = v.pop_back_until( ch ); break;
		case 13: op = "pop_back_until(ch,nd)"; c.op( op ); res = v.pop_back_until( ch, daw::nodiscard ); break;
		case 14: op = "try_pop_front_until"; c.op( op ); res = v.try_pop_front_until( ch ); break;
		case 15: op = "try_pop_back_until"; c.op( op ); res = v.try_pop_back_until( n ); break;
		case 16: op = "pop_front_while"; c.op( op ); res = v.pop_front_while( ch ); break;
		case 17: op = "pop_front_until(pred)"; c.op( op ); res = v.pop_front_until( pred ); break;
		case 18: op = "pop_back_until(pred)"; c.op( op ); res = v.pop_back_until( pred ); break;
		case 19: op = "trim_copy"; c.op( op ); res = v.trim_copy( ); break;
		case 20: op = "trim_suffix_copy"; c.op( op ); res = v.trim_suffix_copy( ); break;
		case 21: op = "trim_prefix_copy"; c.op( op ); res = v.trim_prefix_copy( ); break;
		case 22: op = "remove_prefix(n)"; c.op( op ); v.remove_prefix( k ); have_res = false; break;
		case 23: op = "remove_suffix(n)"; c.op( op ); v.remove_suffix( k ); have_res = false; break;
		case 24: op = "remove_suffix()"; c.op( op ); v.remove_suffix( ); have_res = false; break;
		case 25: op = "resize"; c.op( op ); v.resize( k ); have_res = false; break;
		case 26: op = "trim"; c.op( op ); v.trim( ); have_res = false; break;
		case 27: op = "trim_suffix"; c.op( op ); v.trim_suffix( ); have_res = false; break;
		case 28: op = "remove_suffix_while"; c.op( op ); v.remove_suffix_while( ch ); have_res = false; break;
		case 29: op = "remove_prefix_until"; c.op( op ); v.remove_prefix_until( ch ); have_res = false; break;
		case 30: op = "swap"; c.op( op ); { dsv<CharT> o = v.substr( 0, k ); std::swap( o, v ); res = o; } break;
		case 31: op = "try_pop_back_until(ch)"; c.op( op ); res = v.try_pop_back_until( ch ); break;
		case 32: op = "try_pop_back_until(pred,nd)"; c.op( op ); res = v.try_pop_back_until( pred, daw::nodiscard ); break;
		case 33: op = "pop_back_unsafe()"; c.op( op ); if( not cur.empty( ) ) { (void)v.pop_back_unsafe( ); } have_res = false; break;
		case 34: {
			op = "view-of-view(count)"; c.op( op );
			res = dsv<CharT>( ssv<CharT>( v.data( ), v.size( ) ), k );
			c.eq( "view-of-view(count):size", res.size( ), k );
			break;
		}
		default: {
			op = "expand_suffix"; c.op( op );
			have_res = false;
			if( v.data( ) and v.data( ) >= b.p and not v.empty( ) ) {
				size_t room = text.size( ) - ( static_cast<size_t>( v.data( ) - b.p ) + v.size( ) );
				if( room > 0 )
					v.expand_suffix( 1 + r.below( room ) );
			}
			break;
		}
		}
		if( check_flag( c, op, v, b ) )
			c.count( "kept-termination" );
		else if( claims )
			++lost;
		check_cstr( c, op, v, to_std( v ) );
		if( have_res ) {
			check_flag( c, ( std::string( op ) + ":result" ).c_str( ), res, b );
			check_cstr( c, op, res, to_std( res ) );
			if( r.chance( 1, 4 ) and res.data( ) )
				v = res;
			else if( r.chance( 1, 5 ) )
				v = copy;
		}
		claims = static_cast<bool>( v.is_zero_terminated( ) );
	}
	if( lost or claims )
		c.nontrivial( vf::mix( hash_text( text ), c.rng.next( ) ) );
}
VF_FAMILY( b_char, 40000, 1000000 ) { bounds<char>( c ); }
VF_FAMILY( b_wchar, 8000, 200000 ) { bounds<wchar_t>( c ); }
VF_FAMILY( b_char16, 8000, 200000 ) { bounds<char16_t>( c ); }

// constructors from owning strings, arrays and literals
VF_FAMILY( ctors, 3000, 30000 ) {
	auto &r = c.rng;
	std::string text( r.below( 40 ), 'x' );
	for( auto &ch : text )
		ch = static_cast<char>( 'a' + r.below( 3 ) );
	c.ctx( "text=", text );
	c.nontrivial( vf::hash_str( text ) );
	{
		c.op( "from std::string" );
		daw::sv2::string_view v( text );
		VF_EQ( c, "string:contents", to_std( v ), text );
		if( v.is_zero_terminated( ) )
			VF_EQ( c, "string:zero", v.data( )[v.size( )], '\0' );
		for( size_t cnt : { size_t{ 0 }, r.below( text.size( ) + 1 ), text.size( ), text.size( ) + 3 } ) {
			daw::sv2::string_view w( text, cnt );
			VF_EQ( c, "string-count:contents", to_std( w ), text.substr( 0, cnt ) );
			if( w.is_zero_terminated( ) )
				VF_EQ( c, "string-count:zero", w.data( )[w.size( )], '\0' );
			check_cstr<char>( c, "string-count", w, text.substr( 0, cnt ) );
			if( cnt <= text.size( ) ) {
				daw::sv2::string_view x( text, cnt, daw::dont_clip_to_bounds );
				VF_EQ( c, "string-count-noclip:contents", to_std( x ), text.substr( 0, cnt ) );
				if( x.is_zero_terminated( ) )
					VF_EQ( c, "string-count-noclip:zero", x.data( )[x.size( )], '\0' );
			}
		}
	}
	{
		c.op( "from vector" );
		std::vector<char> vec( text.begin( ), text.end( ) );
		vec.shrink_to_fit( );
		daw::sv2::string_view v( vec );
		VF_EQ( c, "vector:contents", to_std( v ), text );
		VF_EQ( c, "vector:flag", static_cast<bool>( v.is_zero_terminated( ) ), false );
		check_cstr<char>( c, "vector", v, text );
	}
	{
		c.op( "from array" );
		struct S {
			char a[5];
		};
		auto s = std::make_unique<S>( );
		for( auto &ch : s->a )
			ch = 'q';
		bool z = r.coin( );
		if( z )
			s->a[4] = 0;
		daw::sv2::string_view v( s->a );
		VF_EQ( c, "array:size", v.size( ), z ? 4u : 5u );
		VF_EQ( c, "array:flag", static_cast<bool>( v.is_zero_terminated( ) ), z );
		daw::sv2::string_view w( s->a, daw::sv2::not_zero_terminated );
		VF_EQ( c, "array-nzt:size", w.size( ), 5u );
		VF_EQ( c, "array-nzt:flag", static_cast<bool>( w.is_zero_terminated( ) ), false );
	}
	{
		c.op( "clear" );
		daw::sv2::string_view v( text );
		v.clear( );
		VF_EQ( c, "clear:size", v.size( ), 0u );
		if( not text.empty( ) )
			VF_EQ( c, "clear:flag", static_cast<bool>( v.is_zero_terminated( ) ), false );
		v = daw::sv2::string_view( text );
		v.reset( );
		VF_EQ( c, "reset:size", v.size( ), 0u );
		VF_TRUE( c, "reset:data", v.data( ) == nullptr );
		VF_EQ( c, "reset:flag", static_cast<bool>( v.is_zero_terminated( ) ), false );
	}
}
VF_MAIN( )
