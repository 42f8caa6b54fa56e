// Instrumented element types: lifetime accounting, throw injection, move-only,
// allocation accounting.
#pragma once
#include "vf.h"
#include <compare>
#include <unordered_map>

namespace vf {
	// Per-case ledger of live instrumented objects.
	struct Ledger {
		std::unordered_map<void const *, int> live;
		long long ctor = 0, copy = 0, move = 0, dtor = 0, assign = 0;
		long long throw_at = -1; // countdown; throws when it reaches 0
		std::string error;
		bool strict_address = true;
		void err( std::string const &e ) {
			if( error.empty( ) )
				error = e;
		}
	};
	inline Ledger *g_led = nullptr;
	struct injected {};
	struct LedgerScope {
		Ledger l;
		Ledger *prev;
		LedgerScope( ) {
			prev = g_led;
			g_led = &l;
		}
		~LedgerScope( ) {
			g_led = prev;
			Suspend s{ };
			std::unordered_map<void const *, int>( ).swap( l.live );
			std::string( ).swap( l.error );
		}
		// all objects gone, no protocol error
		void check_empty( Case &c, char const *label ) {
			++c.run.checks;
			if( not l.error.empty( ) )
				c.fail( std::string( label ) + ":lifetime", l.error );
			if( not l.live.empty( ) )
				c.fail( std::string( label ) + ":leaked-objects",
				        cat( l.live.size( ), " objects never destroyed" ) );
		}
		bool ok( Case &c, char const *label ) {
			++c.run.checks;
			if( not l.error.empty( ) ) {
				c.fail( std::string( label ) + ":lifetime", l.error );
				return false;
			}
			return true;
		}
	};
	inline void maybe_throw( ) {
		if( g_led and g_led->throw_at >= 0 ) {
			if( g_led->throw_at-- == 0 )
				throw injected{ };
		}
	}
	// Value type with full lifetime monitoring.  Flags:
	//  NoexceptMove - moves are noexcept and never throw
	//  Copyable
	template<bool NoexceptMove, bool Copyable = true>
	struct Tr {
		int v;
		int *heap; // ASan-visible payload: double destroy => double free
		static void born( void const *p ) {
			if( not g_led )
				return;
			Suspend s{ };
			if( not g_led->live.emplace( p, 1 ).second )
				g_led->err( "object constructed over a live object" );
		}
		static void dead( void const *p ) {
			if( not g_led )
				return;
			Suspend s{ };
			if( g_led->live.erase( p ) == 0 )
				g_led->err( "destroyed an object that is not alive" );
		}
		static void used( void const *p ) {
			if( not g_led )
				return;
			Suspend s{ };
			if( g_led->live.find( p ) == g_led->live.end( ) )
				g_led->err( "used (assigned/read/copied) an object that is not alive" );
		}
		Tr( ) : v( 0 ), heap( nullptr ) {
			maybe_throw( );
			heap = new int( 0 );
			born( this );
			if( g_led )
				++g_led->ctor;
		}
		Tr( int x ) : v( x ), heap( nullptr ) {
			maybe_throw( );
			heap = new int( x );
			born( this );
			if( g_led )
				++g_led->ctor;
		}
		Tr( Tr const &o ) requires Copyable : v( o.v ), heap( nullptr ) {
			used( &o );
			maybe_throw( );
			heap = new int( *o.heap );
			born( this );
			if( g_led )
				++g_led->copy;
		}
		Tr( Tr &&o ) noexcept( NoexceptMove ) : v( o.v ), heap( nullptr ) {
			used( &o );
			if constexpr( not NoexceptMove )
				maybe_throw( );
			heap = new int( *o.heap );
			o.v = -1;
			*o.heap = -1;
			born( this );
			if( g_led )
				++g_led->move;
		}
		Tr &operator=( Tr const &o ) requires Copyable {
			used( this );
			used( &o );
			maybe_throw( );
			v = o.v;
			*heap = *o.heap;
			if( g_led )
				++g_led->assign;
			return *this;
		}
		Tr &operator=( Tr &&o ) noexcept( NoexceptMove ) {
			used( this );
			used( &o );
			if constexpr( not NoexceptMove )
				maybe_throw( );
			v = o.v;
			*heap = *o.heap;
			if( this != &o ) {
				o.v = -1;
				*o.heap = -1;
			}
			if( g_led )
				++g_led->assign;
			return *this;
		}
		~Tr( ) {
			dead( this );
			delete heap;
			heap = nullptr;
			v = -2;
			if( g_led )
				++g_led->dtor;
		}
		int get( ) const {
			used( this );
			return v == *heap ? v : -12345;
		}
		friend bool operator==( Tr const &a, Tr const &b ) { return a.get( ) == b.get( ); }
		friend auto operator<=>( Tr const &a, Tr const &b ) { return a.get( ) <=> b.get( ); }
		friend bool operator==( Tr const &a, int b ) { return a.get( ) == b; }
		friend std::ostream &operator<<( std::ostream &os, Tr const &a ) { return os << a.v; }
	};
	using Tracked = Tr<true>;
	using ThrowMove = Tr<false>;
	using MoveOnly = Tr<true, false>;
} // namespace vf
template<bool A, bool B>
struct std::hash<vf::Tr<A, B>> {
	size_t operator( )( vf::Tr<A, B> const &t ) const { return static_cast<size_t>( t.v ); }
};
