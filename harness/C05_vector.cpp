// VF-QUICK: asan
// VF-THOROUGH: asan asan-O2-ndebug
#include "vf.h"
#include "vf_types.h"
#include <daw/vector.h>
#include <daw/split_buffer.h>
#include <daw/vector_algorithm.h>
#include <algorithm>
#include <deque>
#include <iterator>
#include <numeric>
#include <list>

// Arena allocator: every block must go back to an allocator equal to the one
// that produced it, with the size it was requested with.
struct Arena {
	std::map<void *, std::pair<int, size_t>> blocks;
	std::string error;
};
static Arena *g_arena = nullptr;
template<typename T, bool Prop>
struct ArenaAlloc {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<Prop>;
	using propagate_on_container_move_assignment = std::bool_constant<Prop>;
	using propagate_on_container_swap = std::bool_constant<Prop>;
	using is_always_equal = std::false_type;
	int id = 0;
	ArenaAlloc( ) = default;
	explicit ArenaAlloc( int i ) : id( i ) {}
	template<typename U>
	ArenaAlloc( ArenaAlloc<U, Prop> const &o ) : id( o.id ) {}
	template<typename U>
	struct rebind {
		using other = ArenaAlloc<U, Prop>;
	};
	T *allocate( size_t n ) {
		auto *p = static_cast<T *>( ::operator new( n * sizeof( T ) ) );
		g_arena->blocks[p] = { id, n };
		return p;
	}
	void deallocate( T *p, size_t n ) {
		{
				auto it = g_arena->blocks.find( p );
			if( it == g_arena->blocks.end( ) ) {
				if( g_arena->error.empty( ) )
					g_arena->error = "deallocated a block that is not allocated";
				return;
			}
			if( it->second.first != id and g_arena->error.empty( ) )
				g_arena->error = "block returned to a different allocator";
			if( it->second.second != n and g_arena->error.empty( ) )
				g_arena->error = "block returned with a different size";
			g_arena->blocks.erase( it );
		}
		::operator delete( p );
	}
	friend bool operator==( ArenaAlloc const &a, ArenaAlloc const &b ) { return a.id == b.id; }
};

static int val( int x ) { return x; }
template<bool A, bool B>
static int val( vf::Tr<A, B> const &t ) { return t.get( ); }

// single pass iterator producing T from ints
template<typename T>
struct InIt {
	using iterator_category = std::input_iterator_tag;
	using iterator_concept = std::input_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = void;
	using reference = T;
	int const *p = nullptr;
	T operator*( ) const { return T( *p ); }
	InIt &operator++( ) {
		++p;
		return *this;
	}
	InIt operator++( int ) {
		auto r = *this;
		++p;
		return r;
	}
	friend bool operator==( InIt const &a, InIt const &b ) { return a.p == b.p; }
};

template<typename T, typename Alloc>
struct World {
	static constexpr bool copyable = std::is_copy_constructible_v<T>;
	static constexpr bool strong = std::is_nothrow_move_constructible_v<T> or copyable;
	static constexpr bool is_arena = not std::is_same_v<Alloc, std::allocator<T>>;
	static constexpr bool nothrow_moves = std::is_nothrow_move_constructible_v<T>;
	using V = daw::vector<T, Alloc>;
	vf::Case &c;
	vf::LedgerScope &led;
	std::vector<V> vs;
	std::vector<std::vector<int>> ms;
	int next_val = 1;
	bool inject;

	static Alloc mk( int id ) {
		if constexpr( is_arena )
			return Alloc( id );
		else
			return Alloc( );
	}
	World( vf::Case &cc, vf::LedgerScope &l, bool inj ) : c( cc ), led( l ), inject( inj ) {
		for( int i = 0; i < 3; ++i ) {
			vs.emplace_back( mk( i % 2 ) );
			ms.emplace_back( );
		}
	}
	int nv( ) { return next_val++; }

	void check( char const *op, size_t i ) {
		V const &v = vs[i];
		auto const &m = ms[i];
		std::string L( op );
		c.require_eq( ( L + ":size" ).c_str( ), v.size( ), m.size( ) );
		c.require_eq( ( L + ":ssize" ).c_str( ), v.ssize( ), static_cast<std::ptrdiff_t>( m.size( ) ) );
		c.require_eq( ( L + ":empty" ).c_str( ), v.empty( ), m.empty( ) );
		c.require( ( L + ":capacity" ).c_str( ), v.capacity( ) >= v.size( ) );
		c.require_eq( ( L + ":iter-distance" ).c_str( ), static_cast<size_t>( v.end( ) - v.begin( ) ), m.size( ) );
		size_t k = 0;
		for( auto const &x : v ) {
			c.require_eq( ( L + ":contents" ).c_str( ), val( x ), m[k] );
			++k;
		}
		k = m.size( );
		for( auto it = v.crbegin( ); it != v.crend( ); ++it )
			c.require_eq( ( L + ":reverse-contents" ).c_str( ), val( *it ), m[--k] );
		if( not m.empty( ) ) {
			c.require_eq( ( L + ":front" ).c_str( ), val( v.front( ) ), m.front( ) );
			c.require_eq( ( L + ":back" ).c_str( ), val( v.back( ) ), m.back( ) );
			size_t q = c.rng.below( m.size( ) );
			c.require_eq( ( L + ":index" ).c_str( ), val( v[q] ), m[q] );
			c.require_eq( ( L + ":at" ).c_str( ), val( vs[i].at( q ) ), m[q] );
			c.require_eq( ( L + ":data" ).c_str( ), val( v.data( )[q] ), m[q] );
			c.require( ( L + ":mutable element access" ).c_str( ), &vs[i].front( ) == &v.front( ) and &vs[i].back( ) == &v.back( ) and &vs[i][q] == &v[q] and vs[i].data( ) == v.data( ) and &*vs[i].rbegin( ) == &v.back( ) and &*v.rbegin( ) == &v.back( ) );
		}
		c.require( ( L + ":ends" ).c_str( ), v.data_end( ) == v.data( ) + v.size( ) and vs[i].data_end( ) == v.data_end( ) and v.cend( ) == v.end( ) and v.cbegin( ) == v.begin( ) and vs[i].rend( ) - vs[i].rbegin( ) == v.ssize( ) and v.rend( ) - v.rbegin( ) == v.ssize( ) );
		if( not led.ok( c, op ) )
			throw vf::abort_case{ };
		if constexpr( is_arena ) {
			if( not g_arena->error.empty( ) ) {
				c.fail( L + ":allocator", g_arena->error );
				throw vf::abort_case{ };
			}
		}
	}
	void check_all( char const *op ) {
		for( size_t i = 0; i < vs.size( ); ++i )
			check( op, i );
	}
	// read the actual contents into the model after an interrupted operation
	void resync( size_t i ) {
		ms[i].clear( );
		for( auto const &x : vs[i] )
			ms[i].push_back( val( x ) );
	}

	// Run op; with fault injection arm a throw first.  Returns true when it ran
	// to completion (then the model action applies).
	template<typename F>
	bool run( char const *name, std::initializer_list<size_t> touched, bool strong_op, F f ) {
		c.op( name );
		c.count( name );
		if( not inject or c.rng.chance( 1, 2 ) ) {
			f( );
			return true;
		}
		led.l.throw_at = static_cast<long long>( c.rng.below( 9 ) );
		try {
			f( );
			led.l.throw_at = -1;
			return true;
		} catch( vf::injected const & ) {
			led.l.throw_at = -1;
			c.count( "injected-exceptions" );
			if( not strong_op )
				for( auto i : touched )
					resync( i );
			std::string n( name );
			n += strong_op ? ":after-throw-strong" : ":after-throw";
			check_all( n.c_str( ) );
			return false;
		}
	}

	void step( ) {
		auto &r = c.rng;
		size_t i = r.below( vs.size( ) ), j = r.below( vs.size( ) );
		V *v = &vs[i];
		auto *m = &ms[i];
		size_t const sz = m->size( );
		size_t pos = r.below( sz + 1 );
		if( sz > 40 ) {
			if( run( "clear", { i }, false, [&] { v->clear( ); } ) )
				m->clear( );
			check_all( "clear" );
			return;
		}
		std::vector<int> src;
		{
			size_t n = r.below( r.chance( 1, 6 ) ? 20 : 6 );
			for( size_t k = 0; k < n; ++k )
				src.push_back( nv( ) );
		}
		char const *name = "?";
		switch( r.below( 30 ) ) {
		case 0: case 1: {
			int x = nv( );
			name = "push_back(T&&)";
			if( run( name, { i }, strong, [&] { v->push_back( T( x ) ); } ) )
				m->push_back( x );
			break;
		}
		case 2:
			if constexpr( copyable ) {
				name = "push_back(T const&)";
				bool alias = sz > 0 and r.coin( );
				size_t k = alias ? r.below( sz ) : 0;
				int x = alias ? ( *m )[k] : nv( );
				if( alias )
					name = "push_back(own element)";
				if( run( name, { i }, strong, [&] {
					    if( alias )
						    v->push_back( ( *v )[k] );
					    else {
						    T t( x );
						    v->push_back( static_cast<T const &>( t ) );
					    }
				    } ) )
					m->push_back( x );
			}
			break;
		case 3: {
			int x = nv( );
			name = "emplace_back";
			if( run( name, { i }, strong, [&] {
				    auto &ref = v->emplace_back( x );
				    long long sv = led.l.throw_at;
				    led.l.throw_at = -1;
				    c.eq( "emplace_back:returns-back", std::addressof( ref ), std::addressof( v->back( ) ) );
				    led.l.throw_at = sv;
			    } ) )
				m->push_back( x );
			break;
		}
		case 4:
			if( sz ) {
				name = "pop_back";
				v->pop_back( );
				m->pop_back( );
			}
			break;
		case 5:
			if( sz ) {
				name = "pop_back_value";
				if constexpr( copyable or std::is_nothrow_move_constructible_v<T> ) {
					if( run( name, { i }, true, [&] {
						    T t = v->pop_back_value( );
						    led.l.throw_at = -1;
						    c.eq( "pop_back_value:value", val( t ), m->back( ) );
					    } ) )
						m->pop_back( );
				}
			}
			break;
		case 6: case 7: {
			int x = nv( );
			name = "insert(pos,T&&)";
			if( run( name, { i }, pos == sz and strong, [&] {
				    auto it = v->insert( v->cbegin( ) + static_cast<std::ptrdiff_t>( pos ), T( x ) );
				    led.l.throw_at = -1;
				    c.eq( "insert(pos,T&&):returned", it - v->begin( ), static_cast<std::ptrdiff_t>( pos ) );
			    } ) )
				m->insert( m->begin( ) + static_cast<std::ptrdiff_t>( pos ), x );
			break;
		}
		case 8: case 9:
			if constexpr( copyable ) {
				bool alias = sz > 0 and r.coin( );
				size_t k = alias ? r.below( sz ) : 0;
				int x = alias ? ( *m )[k] : nv( );
				name = alias ? "insert(pos,own element)" : "insert(pos,T const&)";
				if( run( name, { i }, pos == sz and strong, [&] {
					    T t( x );
					    auto it = v->insert( v->cbegin( ) + static_cast<std::ptrdiff_t>( pos ),
					                         alias ? static_cast<T const &>( ( *v )[k] ) : static_cast<T const &>( t ) );
					    led.l.throw_at = -1;
					    c.eq( "insert(pos,T const&):returned", it - v->begin( ), static_cast<std::ptrdiff_t>( pos ) );
				    } ) )
					m->insert( m->begin( ) + static_cast<std::ptrdiff_t>( pos ), x );
			}
			break;
		case 10: case 11: {
			bool alias = copyable and sz > 0 and r.coin( );
			size_t k = alias ? r.below( sz ) : 0;
			int x = alias ? ( *m )[k] : nv( );
			name = alias ? "emplace(pos,own element)" : "emplace";
			if( run( name, { i }, pos == sz and strong, [&] {
				    auto p = v->cbegin( ) + static_cast<std::ptrdiff_t>( pos );
				    typename V::iterator it;
				    if constexpr( copyable ) {
					    it = alias ? v->emplace( p, static_cast<T const &>( ( *v )[k] ) ) : v->emplace( p, x );
				    } else
					    it = v->emplace( p, x );
				    led.l.throw_at = -1;
				    c.eq( "emplace:returned", it - v->begin( ), static_cast<std::ptrdiff_t>( pos ) );
			    } ) )
				m->insert( m->begin( ) + static_cast<std::ptrdiff_t>( pos ), x );
			break;
		}
		case 12: case 13:
			if constexpr( copyable ) {
				bool alias = sz > 0 and r.coin( );
				size_t k = alias ? r.below( sz ) : 0;
				int x = alias ? ( *m )[k] : nv( );
				size_t n = src.size( );
				name = alias ? "insert(pos,n,own element)" : "insert(pos,n,x)";
				if( run( name, { i }, false, [&] {
					    T t( x );
					    auto it = v->insert( v->cbegin( ) + static_cast<std::ptrdiff_t>( pos ), n,
					                         alias ? static_cast<T const &>( ( *v )[k] ) : static_cast<T const &>( t ) );
					    led.l.throw_at = -1;
					    c.eq( "insert(pos,n,x):returned", it - v->begin( ), static_cast<std::ptrdiff_t>( pos ) );
				    } ) )
					m->insert( m->begin( ) + static_cast<std::ptrdiff_t>( pos ), n, x );
			}
			break;
		case 14: case 15: {
			name = "insert(pos,forward range)";
			vf::Exact<int> ex( src.begin( ), src.size( ) );
			if( run( name, { i }, false, [&] {
				    auto it = v->insert( v->cbegin( ) + static_cast<std::ptrdiff_t>( pos ), ex.begin( ), ex.end( ) );
				    led.l.throw_at = -1;
				    c.eq( "insert(pos,range):returned", it - v->begin( ), static_cast<std::ptrdiff_t>( pos ) );
			    } ) )
				m->insert( m->begin( ) + static_cast<std::ptrdiff_t>( pos ), src.begin( ), src.end( ) );
			break;
		}
		case 16: {
			name = "insert(pos,input range)";
			vf::Exact<int> ex( src.begin( ), src.size( ) );
			if( run( name, { i }, false, [&] {
				    auto it = v->insert( v->cbegin( ) + static_cast<std::ptrdiff_t>( pos ), InIt<T>{ ex.begin( ) }, InIt<T>{ ex.end( ) } );
				    led.l.throw_at = -1;
				    c.eq( "insert(pos,input range):returned", it - v->begin( ), static_cast<std::ptrdiff_t>( pos ) );
			    } ) )
				m->insert( m->begin( ) + static_cast<std::ptrdiff_t>( pos ), src.begin( ), src.end( ) );
			break;
		}
		case 17: case 18:
			if( sz ) {
				size_t p = r.below( sz );
				name = "erase(pos)";
				if( run( name, { i }, p == sz - 1, [&] {
					    auto it = v->erase( v->cbegin( ) + static_cast<std::ptrdiff_t>( p ) );
					    c.eq( "erase(pos):returned", it - v->begin( ), static_cast<std::ptrdiff_t>( p ) );
				    } ) )
					m->erase( m->begin( ) + static_cast<std::ptrdiff_t>( p ) );
			}
			break;
		case 19: {
			size_t q = pos + r.below( sz - pos + 1 );
			name = "erase(range)";
			if( run( name, { i }, q == sz or q == pos, [&] {
				    auto it = v->erase( v->cbegin( ) + static_cast<std::ptrdiff_t>( pos ), v->cbegin( ) + static_cast<std::ptrdiff_t>( q ) );
				    c.eq( "erase(range):returned", it - v->begin( ), static_cast<std::ptrdiff_t>( pos ) );
			    } ) )
				m->erase( m->begin( ) + static_cast<std::ptrdiff_t>( pos ), m->begin( ) + static_cast<std::ptrdiff_t>( q ) );
			break;
		}
		case 20: {
			size_t n = r.below( 30 );
			if( r.coin( ) ) {
				name = "resize(n)";
				if( run( name, { i }, false, [&] { v->resize( n ); } ) )
					m->resize( n, 0 );
			} else if constexpr( copyable ) {
				bool alias = sz > 0 and r.coin( );
				size_t k = alias ? r.below( sz ) : 0;
				int x = alias ? ( *m )[k] : nv( );
				name = "resize(n,x)";
				if( run( name, { i }, false, [&] {
					    T t( x );
					    v->resize( n, alias ? static_cast<T const &>( ( *v )[k] ) : static_cast<T const &>( t ) );
				    } ) )
					m->resize( n, x );
			}
			break;
		}
		case 21: {
			size_t n = r.below( 60 );
			name = "reserve";
			if( run( name, { i }, strong, [&] { v->reserve( n ); } ) )
				c.require( "reserve:capacity", v->capacity( ) >= n );
			break;
		}
		case 22:
			name = "shrink_to_fit";
			c.op( name );
			if( r.coin( ) or not inject ) {
				v->shrink_to_fit( );
				c.require_eq( "shrink_to_fit:capacity", v->capacity( ), m->size( ) );
			} else if constexpr( strong ) {
				led.l.throw_at = static_cast<long long>( r.below( 9 ) );
				v->shrink_to_fit( );
				led.l.throw_at = -1;
			}
			break;
		case 23: {
			name = "assign(range)";
			vf::Exact<int> ex( src.begin( ), src.size( ) );
			if( r.coin( ) ) {
				if constexpr( copyable ) {
					if( run( name, { i }, false, [&] {
						    std::list<T> tmp( ex.begin( ), ex.end( ) );
						    v->assign( tmp.begin( ), tmp.end( ) );
					    } ) )
						m->assign( src.begin( ), src.end( ) );
				}
			} else {
				name = "assign(input range)";
				if( run( name, { i }, false, [&] { v->assign( InIt<T>{ ex.begin( ) }, InIt<T>{ ex.end( ) } ); } ) )
					m->assign( src.begin( ), src.end( ) );
			}
			break;
		}
		case 24:
			if constexpr( copyable ) {
				size_t n = src.size( );
				int x = nv( );
				name = "assign(n,x)";
				if( run( name, { i }, false, [&] {
					    T t( x );
					    v->assign( n, t );
				    } ) )
					m->assign( n, x );
			}
			break;
		case 25:
			if constexpr( copyable ) {
				name = i == j ? "self copy-assign" : "copy-assign";
				if( run( name, { i }, i == j, [&] { *v = vs[j]; } ) )
					*m = ms[j];
			}
			break;
		case 26:
			if( i != j ) {
				name = "move-assign";
				if( run( name, { i, j }, false, [&] { *v = std::move( vs[j] ); } ) ) {
					*m = ms[j];
					resync( j );
				}
			}
			break;
		case 27:
			if( i != j ) {
				// swapping unequal allocators that do not propagate is undefined
				if constexpr( is_arena ) {
					if( not std::allocator_traits<Alloc>::propagate_on_container_swap::value and
					    not( v->get_allocator( ) == vs[j].get_allocator( ) ) )
						break;
				}
				name = "swap";
				c.op( name );
				if( r.coin( ) )
					v->swap( vs[j] );
				else
					daw::swap( *v, vs[j] );
				std::swap( *m, ms[j] );
			}
			break;
		case 28:
			construct( );
			return;
		case 29: {
			name = "at:out-of-range";
			c.op( name );
			size_t k = sz + ( r.coin( ) ? 0 : r.edgy<size_t>( ) % 1000000 );
			int th = 0;
			try {
				(void)v->at( k );
			} catch( std::out_of_range const & ) {
				th = 1;
			}
			try {
				(void)std::as_const( *v ).at( k );
			} catch( std::out_of_range const & ) {
				++th;
			}
			c.eq( name, th, 2 );
			if( r.coin( ) ) {
				if constexpr( copyable ) {
					int x = sz ? ( *m )[r.below( sz )] : 1;
					name = "erase(value)";
					size_t got = 0;
					if( run( name, { i }, false, [&] {
						    if( r.coin( ) )
							    got = daw::erase( *v, x );
						    else
							    got = daw::erase_if( *v, [&]( T const &t ) { return val( t ) == x; } );
					    } ) )
						c.eq( "erase(value):count", got, std::erase( *m, x ) );
				}
			} else {
				name = "erase_if";
				int md = 2 + static_cast<int>( r.below( 3 ) );
				size_t got = 0;
				if( run( name, { i }, false, [&] { got = daw::erase_if( *v, [&]( T const &t ) { return val( t ) % md == 0; } ); } ) )
					c.eq( "erase_if:count", got, std::erase_if( *m, [&]( int x ) { return x % md == 0; } ) );
			}
			break;
		}
		}
		if constexpr( copyable ) {
			c.eq( "operator==", vs[i] == vs[j], ms[i] == ms[j] );
			c.eq( "operator!=", vs[i] != vs[j], ms[i] != ms[j] );
			c.eq( "operator<", vs[i] < vs[j], ms[i] < ms[j] );
			c.eq( "operator<=", vs[i] <= vs[j], ms[i] <= ms[j] );
			c.eq( "operator>", vs[i] > vs[j], ms[i] > ms[j] );
			c.eq( "operator>=", vs[i] >= vs[j], ms[i] >= ms[j] );
		}
		check_all( name );
	}

	void construct( ) {
		auto &r = c.rng;
		size_t j = r.below( vs.size( ) );
		size_t n = r.below( 12 );
		std::vector<int> want;
		std::vector<int> ints;
		{
			for( size_t k = 0; k < n; ++k )
				ints.push_back( nv( ) );
		}
		char const *name = "?";
		Alloc a = mk( static_cast<int>( r.below( 3 ) ) );
		bool done = false;
		bool moved = false;
		auto verify = [&]( V &&nvct ) {
			led.l.throw_at = -1;
			std::vector<int> got;
			for( auto const &x : nvct )
				got.push_back( val( x ) );
			c.require_eq( ( std::string( name ) + ":constructed" ).c_str( ), got, want );
			c.require_eq( ( std::string( name ) + ":constructed-size" ).c_str( ), nvct.size( ), want.size( ) );
		};
		switch( r.below( 9 ) ) {
		case 0:
			name = "vector(n)";
			want.assign( n, 0 );
			done = run( name, { }, true, [&] { verify( r.coin( ) ? V( n ) : V( n, a ) ); } );
			break;
		case 1:
			if constexpr( copyable ) {
				name = "vector(n,x)";
				want.assign( n, 7 );
				done = run( name, { }, true, [&] {
					T t( 7 );
					verify( r.coin( ) ? V( n, t ) : V( n, t, a ) );
				} );
			}
			break;
		case 2:
			name = "vector(forward range)";
			want = ints;
			done = run( name, { }, true, [&] { verify( r.coin( ) ? V( ints.begin( ), ints.end( ) ) : V( ints.begin( ), ints.end( ), a ) ); } );
			break;
		case 3: {
			name = "vector(input range)";
			want = ints;
			InIt<T> f{ ints.data( ) }, l{ ints.data( ) + n };
			done = run( name, { }, true, [&] { verify( r.coin( ) ? V( f, l ) : V( f, l, a ) ); } );
			break;
		}
		case 4:
			if constexpr( copyable ) {
				name = "vector(copy)";
				want = ms[j];
				done = run( name, { }, true, [&] { verify( r.coin( ) ? V( vs[j] ) : V( vs[j], a ) ); } );
			}
			break;
		case 5: {
			name = "vector(move)";
			want = ms[j];
			moved = true;
			done = run( name, { j }, false, [&] { verify( V( std::move( vs[j] ) ) ); } );
			break;
		}
		case 6: {
			name = "vector(move,alloc)";
			want = ms[j];
			moved = true;
			done = run( name, { j }, false, [&] { verify( V( std::move( vs[j] ), a ) ); } );
			break;
		}
		case 7:
			if constexpr( copyable ) {
				name = "vector(initializer_list)";
				want = { 3, 1, 2 };
				done = run( name, { }, true, [&] { verify( V( std::initializer_list<T>{ T( 3 ), T( 1 ), T( 2 ) }, a ) ); } );
			}
			break;
		default: {
			name = "vector()";
			done = run( name, { }, true, [&] { verify( r.coin( ) ? V( ) : V( a ) ); } );
		}
		}
		if( moved and done )
			resync( j );
		check_all( name );
	}
};

template<typename T, typename Alloc>
static void history( vf::Case &c, bool inject ) {
	Arena ar;
	g_arena = &ar;
	vf::LedgerScope led;
	{
		World<T, Alloc> w( c, led, inject );
		size_t steps = 25 + c.rng.below( 50 );
		c.ctx( "history of ", steps, " steps, inject=", inject );
		c.nontrivial( vf::mix( steps, c.idx ) );
		for( size_t k = 0; k < steps; ++k )
			w.step( );
	}
	led.check_empty( c, "end-of-history" );
	if( not ar.blocks.empty( ) )
		c.fail( "end-of-history:leaked-blocks", vf::cat( ar.blocks.size( ), " blocks never deallocated" ) );
	if( not ar.error.empty( ) )
		c.fail( "end-of-history:allocator", ar.error );
	g_arena = nullptr;
}

VF_FAMILY( history_int, 600, 20000 ) { history<int, std::allocator<int>>( c, false ); }
VF_FAMILY( history_tracked, 900, 30000 ) { history<vf::Tracked, std::allocator<vf::Tracked>>( c, false ); }
VF_FAMILY( history_moveonly, 500, 15000 ) { history<vf::MoveOnly, std::allocator<vf::MoveOnly>>( c, false ); }
VF_FAMILY( history_fault, 900, 30000 ) { history<vf::Tracked, std::allocator<vf::Tracked>>( c, true ); }
VF_FAMILY( history_fault_throwmove, 900, 30000 ) { history<vf::ThrowMove, std::allocator<vf::ThrowMove>>( c, true ); }
VF_FAMILY( history_arena, 500, 20000 ) { history<vf::Tracked, ArenaAlloc<vf::Tracked, false>>( c, c.rng.coin( ) ); }
VF_FAMILY( history_arena_prop, 500, 20000 ) { history<vf::Tracked, ArenaAlloc<vf::Tracked, true>>( c, c.rng.coin( ) ); }

// copying is all this type does without throwing: pop_back_value copies
struct CopyOnly {
	int v;
	CopyOnly( int i ) : v( i ) {}
	CopyOnly( CopyOnly const &o ) noexcept : v( o.v ) {}
	CopyOnly( CopyOnly &&o ) noexcept( false ) : v( o.v ) { o.v = -1; throw 1; }
	CopyOnly &operator=( CopyOnly const & ) = default;
	CopyOnly &operator=( CopyOnly && ) = default;
};
VF_FAMILY( initializer_lists, 1500, 30000 ) {
	auto &r = c.rng;
	vf::LedgerScope led;
	using T = vf::Tracked;
	{
		daw::vector<T> v;
		std::vector<int> m;
		for( size_t s = 0, steps = 1 + r.below( 10 ); s < steps; ++s ) {
			int a = static_cast<int>( r.below( 90 ) ), b = a + 100, d = a + 200;
			switch( r.below( 7 ) ) {
			case 0: c.op( "vector = {}" ); v = { }; v = std::initializer_list<T>{ }; m.clear( ); break;
			case 1: c.op( "vector = {a,b,c}" ); VF_TRUE( c, "vector = {}:returns itself", &( v = { T( a ), T( b ), T( d ) } ) == &v ); m = { a, b, d }; break;
			case 2: c.op( "assign({..})" ); v.assign( { T( b ), T( a ) } ); m = { b, a }; break;
			case 3: case 4: {
				c.op( "insert(pos,{..})" );
				auto p = static_cast<std::ptrdiff_t>( r.below( m.size( ) + 1 ) );
				auto it = r.coin( ) ? v.insert( v.cbegin( ) + p, { T( a ), T( b ), T( d ) } ) : v.insert( v.cbegin( ) + p, { T( a ), T( b ), T( d ) } );
				m.insert( m.begin( ) + p, { a, b, d } );
				VF_EQ( c, "insert(pos,{..}):position", it - v.begin( ), p );
				break;
			}
			case 5: { c.op( "insert(pos,{})" ); auto p = static_cast<std::ptrdiff_t>( r.below( m.size( ) + 1 ) ); auto it = v.insert( v.cbegin( ) + p, std::initializer_list<T>{ } ); VF_EQ( c, "insert(pos,{}):position", it - v.begin( ), p ); break; }
			default: if( r.coin( ) ) v.reserve( v.size( ) + r.below( 8 ) ); else if( not m.empty( ) ) { v.pop_back( ); m.pop_back( ); } break;
			}
			VF_EQ( c, "initializer_list:size", v.size( ), m.size( ) );
			VF_TRUE( c, "initializer_list:contents", std::equal( v.begin( ), v.end( ), m.begin( ), m.end( ), []( T const &x, int y ) { return x.get( ) == y; } ) );
			if( not led.ok( c, "initializer_list" ) ) throw vf::abort_case{ };
		}
		c.nontrivial( vf::mix( m.size( ), m.empty( ) ? 0u : static_cast<uint64_t>( m.back( ) ) ) );
	}
	{
		c.op( "pop_back_value copies" );
		daw::vector<CopyOnly> v;
		v.reserve( 3 );
		v.emplace_back( 4 );
		v.emplace_back( 5 );
		VF_TRUE( c, "pop_back_value:copies when only copying cannot throw", v.pop_back_value( ).v == 5 and v.size( ) == 1 and v.front( ).v == 4 );
		c.op( "vector(do_resize_and_overwrite,0)" );
		bool called = false;
		daw::vector<int> const w( daw::do_resize_and_overwrite, 0u, [&]( int *, size_t ) { called = true; return size_t{ 0 }; } );
		daw::vector<int> const w2( daw::do_resize_and_overwrite, 0u, [&]( int *, size_t ) { called = true; return size_t{ 0 }; }, std::allocator<int>{ } );
		VF_TRUE( c, "vector(do_resize_and_overwrite,0)", w.empty( ) and w2.empty( ) and not called );
		// a negative count says nothing was written
		c.op( "resize_and_overwrite negative" );
		daw::vector<int> n;
		n = { 1, 2, 3 };
		auto const neg = n.append_and_overwrite( 4, []( int *p, size_t ) { *p = 9; return -2; } );
		VF_TRUE( c, "append_and_overwrite:negative", neg == -2 and n.size( ) == 3 and n.back( ) == 3 );
		auto const neg2 = n.append_and_overwrite( 4, []( int *p, size_t, std::allocator<int> & ) { *p = 9; return -2; } );
		VF_TRUE( c, "append_and_overwrite(alloc):negative", neg2 == -2 and n.size( ) == 3 and n.back( ) == 3 );
		(void)( r.coin( ) ? n.resize_and_overwrite( 4, []( int *, size_t ) { return -1; } ) : n.resize_and_overwrite( 4, []( int *, size_t, std::allocator<int> & ) { return -1; } ) );
		VF_TRUE( c, "resize_and_overwrite:negative", n.empty( ) );
	}
	VF_TRUE( c, "initializer_list:all destroyed", led.ok( c, "end" ) );
}

// resize_and_overwrite / append_and_overwrite / block appends on trivial and
// non-trivial elements
VF_FAMILY( overwrite, 1500, 40000 ) {
	using V = daw::vector<int>;
	auto &r = c.rng;
	V v;
	std::vector<int> m;
	size_t steps = 1 + r.below( 12 );
	c.ctx( "overwrite steps=", steps );
	for( size_t k = 0; k < steps; ++k ) {
		size_t n = r.below( 40 );
		size_t keep = r.below( n + 1 );
		int base = static_cast<int>( r.below( 1000 ) );
		c.nontrivial( vf::mix( n * 100 + keep, m.size( ) ) );
		switch( r.below( 7 ) ) {
		case 0: {
			c.op( "resize_and_overwrite" );
			size_t got_n = 0;
			auto res = v.resize_and_overwrite( n, [&]( int *p, size_t sz ) {
				got_n = sz;
				for( size_t q = 0; q < sz; ++q )
					p[q] = base + static_cast<int>( q );
				return keep;
			} );
			VF_EQ( c, "resize_and_overwrite:result", res, keep );
			VF_EQ( c, "resize_and_overwrite:n", got_n, n );
			m.clear( );
			for( size_t q = 0; q < keep; ++q )
				m.push_back( base + static_cast<int>( q ) );
			break;
		}
		case 1: {
			c.op( "resize_and_overwrite(alloc)" );
			(void)v.resize_and_overwrite( n, [&]( int *p, size_t sz, std::allocator<int> & ) {
				for( size_t q = 0; q < sz; ++q )
					p[q] = base - static_cast<int>( q );
				return static_cast<std::ptrdiff_t>( keep );
			} );
			m.clear( );
			for( size_t q = 0; q < keep; ++q )
				m.push_back( base - static_cast<int>( q ) );
			break;
		}
		case 2: {
			c.op( "append_and_overwrite" );
			(void)v.append_and_overwrite( n, [&]( int *p, size_t sz ) {
				for( size_t q = 0; q < sz; ++q )
					p[q] = base + static_cast<int>( q );
				return keep;
			} );
			for( size_t q = 0; q < keep; ++q )
				m.push_back( base + static_cast<int>( q ) );
			break;
		}
		case 3: {
			c.op( "append_and_overwrite(alloc)" );
			(void)v.append_and_overwrite( n, [&]( int *p, size_t sz, std::allocator<int> & ) {
				for( size_t q = 0; q < sz; ++q )
					p[q] = base;
				return keep;
			} );
			m.insert( m.end( ), keep, base );
			break;
		}
		case 4: {
			c.op( "block_append_from" );
			std::vector<int> s( n );
			std::iota( s.begin( ), s.end( ), base );
			vf::Exact<int> ex( s.begin( ), n );
			size_t bs = 1 + r.below( 9 );
			daw::block_append_from( v, ex.begin( ), ex.end( ), bs );
			m.insert( m.end( ), s.begin( ), s.end( ) );
			break;
		}
		case 5: {
			c.op( "block_create_from" );
			std::vector<int> s( n );
			std::iota( s.begin( ), s.end( ), base );
			vf::Exact<int> ex( s.begin( ), n );
			if( r.coin( ) )
				v = daw::block_create_from<int>( ex.begin( ), ex.end( ), 1 + r.below( 9 ) );
			else
				v = daw::block_create_from<int>( ex.begin( ), ex.end( ) );
			m = s;
			break;
		}
		default: {
			c.op( "vector(do_resize_and_overwrite)" );
			V w( daw::do_resize_and_overwrite, n, [&]( int *p, size_t sz ) {
				for( size_t q = 0; q < sz; ++q )
					p[q] = base;
				return keep;
			} );
			v = std::move( w );
			m.assign( keep, base );
			if( r.coin( ) ) {
				V w2( daw::do_resize_and_overwrite, n, daw::algorithm::iota_op<int>( base + 0, 3 ) );
				std::vector<int> e;
				for( size_t q = 0; q < n; ++q )
					e.push_back( base + 3 * static_cast<int>( q ) );
				VF_EQ( c, "iota_op", std::vector<int>( w2.begin( ), w2.end( ) ), e );
			}
		}
		}
		std::vector<int> got( v.begin( ), v.end( ) );
		VF_REQ( c, "overwrite:contents", got, m );
		VF_TRUE( c, "overwrite:capacity", v.capacity( ) >= v.size( ) );
	}
}

// shrinking through resize_and_overwrite destroys what it drops; the operation
// constructs only positions that were not elements before
VF_FAMILY( overwrite_tracked, 600, 20000 ) {
	vf::LedgerScope led;
	{
		using T = vf::Tracked;
		daw::vector<T> v;
		std::vector<int> m;
		auto &r = c.rng;
		for( int k = 0; k < 6; ++k ) {
			size_t old = m.size( );
			size_t n = r.below( 20 );
			size_t keep = n < old ? r.below( n + 1 ) : n;
			if( n > old and r.coin( ) )
				keep = n;
			int base = static_cast<int>( r.below( 500 ) );
			c.nontrivial( vf::mix( old * 50 + n, keep ) );
			c.op( "resize_and_overwrite(tracked)" );
			(void)v.resize_and_overwrite( n, [&]( T *p, size_t sz ) {
				for( size_t q = 0; q < sz; ++q ) {
					if( q < old )
						p[q] = T( base + static_cast<int>( q ) );
					else
						std::construct_at( p + q, base + static_cast<int>( q ) );
				}
				return keep;
			} );
			m.clear( );
			for( size_t q = 0; q < keep; ++q )
				m.push_back( base + static_cast<int>( q ) );
			std::vector<int> got;
			for( auto const &x : v )
				got.push_back( x.get( ) );
			VF_REQ( c, "overwrite_tracked:contents", got, m );
			VF_EQ( c, "overwrite_tracked:live", led.l.live.size( ), m.size( ) );
		}
	}
	led.check_empty( c, "end-of-history" );
}

// too large requests are refused without changing anything
VF_FAMILY( length_error, 200, 2000 ) {
	daw::vector<int> v;
	size_t n = c.rng.below( 5 );
	for( size_t k = 0; k < n; ++k )
		v.push_back( static_cast<int>( k ) );
	size_t big = v.max_size( ) + 1 + c.rng.below( 1000 );
	c.ctx( "n=", n, " big=", big );
	c.nontrivial( vf::mix( n, big ) );
	auto tryit = [&]( char const *name, auto f ) {
		c.op( name );
		bool ok = false;
		try {
			f( );
		} catch( std::length_error const & ) {
			ok = true;
		}
		c.truth( name, ok );
		c.eq( "length_error:size", v.size( ), n );
		for( size_t k = 0; k < n; ++k )
			c.eq( "length_error:contents", v[k], static_cast<int>( k ) );
	};
	tryit( "length_error:reserve", [&] { v.reserve( big ); } );
	tryit( "length_error:resize", [&] { v.resize( big ); } );
	tryit( "length_error:insert", [&] { v.insert( v.begin( ), big, 3 ); } );
	tryit( "length_error:construct", [&] { daw::vector<int> w( big ); } );
}

// split_buffer: the buffer with spare room at both ends that vector grows through
template<typename T, typename Alloc>
static void split_history( vf::Case &c, bool inject ) {
	static constexpr bool is_arena = not std::is_same_v<Alloc, std::allocator<T>>;
	using B = daw::split_buffer<T, Alloc>;
	vf::LedgerScope led;
	Arena arena;
	g_arena = &arena;
	auto &r = c.rng;
	{
		Alloc a = World<T, Alloc>::mk( 1 );
		auto b = std::make_unique<B>( a );
		std::deque<int> m;
		int next = 1;
		auto check = [&]( char const *op ) {
			B const &k = *b;
			VF_TRUE( c, "sb:invariants", k.invariants( ) );
			VF_REQ( c, "sb:size", k.size( ), m.size( ) );
			VF_EQ( c, "sb:empty", k.empty( ), m.empty( ) );
			VF_EQ( c, "sb:spare room adds up", k.front_spare( ) + k.size( ) + k.back_spare( ), k.capacity( ) );
			size_t i = 0;
			for( auto const &x : k ) VF_EQ( c, "sb:contents", val( x ), m[i++] );
			if( not m.empty( ) ) {
				VF_EQ( c, "sb:front", val( k.front( ) ), m.front( ) );
				VF_EQ( c, "sb:back", val( b->back( ) ), m.back( ) );
				VF_TRUE( c, "sb:front/back mutable", &b->front( ) == &k.front( ) and &b->back( ) == &k.back( ) and b->begin( ) + static_cast<std::ptrdiff_t>( m.size( ) ) == b->end( ) );
			}
			if( not led.ok( c, op ) ) throw vf::abort_case{ };
			if( not arena.error.empty( ) ) {
				c.fail( "sb:allocator", arena.error );
				throw vf::abort_case{ };
			}
			c.nontrivial( vf::mix( k.size( ) * 64 + k.front_spare( ), k.back_spare( ) ) );
		};
		size_t const steps = 5 + r.below( 40 );
		int const bias = static_cast<int>( r.below( 3 ) );
		for( size_t s = 0; s < steps; ++s ) {
			char const *n = "";
			bool const arm = inject and r.chance( 1, 4 );
			if( arm ) led.l.throw_at = static_cast<long long>( r.below( 7 ) );
			auto const before = m;
			size_t what = r.below( 22 );
			if( what < 12 and bias ) what = bias == 1 ? what % 6 : 6 + what % 6;
			try {
				switch( what ) {
				case 0: case 1:
					c.op( n = "sb:push_front rvalue" );
					{ T x( next ); b->push_front( std::move( x ) ); m.push_front( next++ ); }
					break;
				case 2: case 3:
					if constexpr( std::is_copy_constructible_v<T> ) {
						c.op( n = "sb:push_front lvalue" );
						T const x( next );
						b->push_front( x );
						m.push_front( next++ );
						VF_EQ( c, "sb:push_front leaves its argument", val( x ), next - 1 );
					}
					break;
				case 4: case 5: case 12:
					if( not m.empty( ) ) { c.op( n = "sb:pop_back" ); b->pop_back( ); m.pop_back( ); }
					break;
				case 6:
					c.op( n = "sb:push_back rvalue" );
					{ T x( next ); b->push_back( std::move( x ) ); m.push_back( next++ ); }
					break;
				case 7: case 8:
					if constexpr( std::is_copy_constructible_v<T> ) {
						c.op( n = "sb:push_back lvalue" );
						T const x( next );
						b->push_back( x );
						m.push_back( next++ );
						VF_EQ( c, "sb:push_back leaves its argument", val( x ), next - 1 );
					}
					break;
				case 9: c.op( n = "sb:emplace_back" ); b->emplace_back( next ); m.push_back( next++ ); break;
				case 10: case 11: case 13:
					if( not m.empty( ) ) { c.op( n = "sb:pop_front" ); b->pop_front( ); m.pop_front( ); }
					break;
				case 14:
					c.op( n = "sb:reserve" );
					{
						size_t want = r.below( 40 );
						b->reserve( want );
						VF_TRUE( c, "sb:reserve gives room", b->capacity( ) >= want );
					}
					break;
				case 15:
					c.op( n = "sb:shrink_to_fit" );
					// (it gives up silently when a move throws: what was moved by then is gone)
					if( not std::is_nothrow_move_constructible_v<T> ) led.l.throw_at = -1;
					b->shrink_to_fit( );
					if( not arm ) VF_EQ( c, "sb:shrink_to_fit", b->capacity( ), m.size( ) );
					break;
				case 16:
					c.op( n = "sb:construct_at_end" );
					{
						size_t cnt = r.below( 6 );
						b->reserve( b->size( ) + b->front_spare( ) + cnt );
						if( b->back_spare( ) < cnt ) break;
						std::vector<int> src( cnt );
						std::iota( src.begin( ), src.end( ), next );
						if( r.coin( ) ) {
							b->construct_at_end( src.begin( ), src.end( ) );
							m.insert( m.end( ), src.begin( ), src.end( ) );
						} else if constexpr( std::is_copy_constructible_v<T> ) {
							T const x( next );
							b->construct_at_end( cnt, x );
							m.insert( m.end( ), cnt, next );
						}
						next += static_cast<int>( cnt );
					}
					break;
				case 20:
					// (a single pass range may grow the buffer on the way)
					if constexpr( std::is_copy_constructible_v<T> ) {
						c.op( n = "sb:construct_at_end single pass" );
						std::vector<int> src( r.below( 24 ) );
						std::iota( src.begin( ), src.end( ), next );
						b->construct_at_end( InIt<T>{ src.data( ) }, InIt<T>{ src.data( ) + src.size( ) } );
						m.insert( m.end( ), src.begin( ), src.end( ) );
						next += 24;
					}
					break;
				case 21:
					if constexpr( std::is_default_constructible_v<T> ) {
						c.op( n = "sb:construct_at_end default" );
						size_t cnt = r.below( 6 );
						if( b->back_spare( ) < cnt ) break;
						b->construct_at_end( cnt );
						m.insert( m.end( ), cnt, val( T( ) ) );
					}
					break;
				case 17:
					if( r.chance( 1, 3 ) ) { c.op( n = "sb:clear" ); b->clear( ); m.clear( ); }
					break;
				case 18:
					{
						Alloc a2 = World<T, Alloc>::mk( r.coin( ) ? 1 : 2 );
						led.l.throw_at = -1;
						std::unique_ptr<B> o;
						if( r.coin( ) ) {
							c.op( n = "sb:move construct" );
							o = std::make_unique<B>( std::move( *b ) );
							VF_TRUE( c, "sb:moved-from is empty", b->empty( ) and b->capacity( ) == 0 and b->invariants( ) );
						} else {
							// (from an unequal allocator the elements are moved one by one)
							c.op( n = "sb:move construct with allocator" );
							o = std::make_unique<B>( std::move( *b ), a2 );
							VF_TRUE( c, "sb:moved-from is usable", b->invariants( ) );
							b->clear( );
						}
						if( r.coin( ) ) b->emplace_back( 7 );
						b = std::move( o );
					}
					break;
				default:
					{
						led.l.throw_at = -1;
						auto o = std::make_unique<B>( b->alloc( ) );
						std::vector<int> om;
						for( size_t i = r.below( 5 ); i > 0; --i ) { o->emplace_back( next ); om.push_back( next++ ); }
						if( r.coin( ) ) {
							c.op( n = "sb:swap" );
							if( r.coin( ) ) b->swap( *o ); else swap( *b, *o );
							VF_EQ( c, "sb:swap size", o->size( ), m.size( ) );
							size_t i = 0;
							for( auto const &x : *o ) VF_EQ( c, "sb:swap contents", val( x ), m[i++] );
						} else {
							c.op( n = "sb:move assign" );
							*b = std::move( *o );
							VF_TRUE( c, "sb:move assigned from is empty", o->empty( ) and o->capacity( ) == 0 and o->invariants( ) );
							o->emplace_back( 3 );
							VF_EQ( c, "sb:move assigned from is usable", val( o->back( ) ), 3 );
						}
						m.assign( om.begin( ), om.end( ) );
					}
					break;
				}
				led.l.throw_at = -1;
			} catch( vf::injected const & ) {
				// what is left is some of the elements, in order, and can be used
				led.l.throw_at = -1;
				c.count( "interrupted" );
				VF_TRUE( c, "sb:interrupted invariants", b->invariants( ) );
				m.clear( );
				for( auto const &x : *b ) m.push_back( val( x ) );
				VF_TRUE( c, "sb:interrupted size", m.size( ) <= before.size( ) + 30 );
			}
			check( n );
		}
	}
	led.check_empty( c, "sb:end" );
	if constexpr( is_arena ) VF_EQ( c, "sb:all blocks returned", arena.blocks.size( ), size_t{ 0 } );
}
VF_FAMILY( split_int, 400, 15000 ) { split_history<int, std::allocator<int>>( c, false ); }
VF_FAMILY( split_tracked, 600, 20000 ) { split_history<vf::Tracked, std::allocator<vf::Tracked>>( c, false ); }
VF_FAMILY( split_moveonly, 300, 15000 ) { split_history<vf::MoveOnly, std::allocator<vf::MoveOnly>>( c, false ); }
VF_FAMILY( split_fault, 600, 20000 ) { split_history<vf::Tracked, std::allocator<vf::Tracked>>( c, true ); }
VF_FAMILY( split_fault_throwmove, 600, 20000 ) { split_history<vf::ThrowMove, std::allocator<vf::ThrowMove>>( c, true ); }
VF_FAMILY( split_arena, 400, 20000 ) { split_history<vf::Tracked, ArenaAlloc<vf::Tracked, false>>( c, c.rng.coin( ) ); }

VF_MAIN( )
