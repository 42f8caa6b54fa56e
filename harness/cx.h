// Programs evaluated twice: once by the compiler, once by the processor.
//
// A program is a constexpr function of a seed that drives one facility of the
// library with pseudo-random operations and folds everything it observes into
// numbered lanes. The table of the results for seeds 1..N is a constant
// expression, so it comes from the constant evaluator; the monitor runs the same
// program for the same seeds at run time and compares the lanes.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <type_traits>

namespace cx {
	struct Rng {
		std::uint64_t s;
		constexpr std::uint64_t next( ) {
			s += 0x9E3779B97F4A7C15ULL;
			std::uint64_t z = s;
			z = ( z ^ ( z >> 30U ) ) * 0xBF58476D1CE4E5B9ULL;
			z = ( z ^ ( z >> 27U ) ) * 0x94D049BB133111EBULL;
			return z ^ ( z >> 31U );
		}
		constexpr std::size_t below( std::size_t n ) {
			return static_cast<std::size_t>( next( ) % n );
		}
		constexpr int range( int lo, int hi ) {
			return lo + static_cast<int>( below( static_cast<std::size_t>( hi - lo + 1 ) ) );
		}
		constexpr bool coin( ) {
			return ( next( ) >> 33U & 1U ) != 0;
		}
		/// small, large, near a power of two
		template<typename T>
		constexpr T edgy( ) {
			auto const w = sizeof( T ) * 8U;
			std::uint64_t v = next( );
			switch( below( 5 ) ) {
			case 0:
				v %= 5;
				break;
			case 1:
				v = ~( v % 5 );
				break;
			case 2:
				v = ( std::uint64_t{ 1 } << below( w ) ) + v % 3 - 1U;
				break;
			case 3:
				v >>= below( 64 );
				break;
			default:
				break;
			}
			return static_cast<T>( v );
		}
	};

	inline constexpr std::size_t lanes = 32;
	struct Out {
		std::array<std::uint64_t, lanes> lane{ };
		std::array<char const *, lanes> label{ };
		std::uint32_t events = 0;

		template<typename T>
		constexpr void operator( )( std::size_t n, char const *what, T v ) {
			std::uint64_t x;
			if constexpr( std::is_floating_point_v<T> ) {
				static_assert( sizeof( T ) == 8 or sizeof( T ) == 4 );
				if constexpr( sizeof( T ) == 8 ) {
					x = __builtin_bit_cast( std::uint64_t, v );
				} else {
					x = __builtin_bit_cast( std::uint32_t, v );
				}
			} else {
				x = static_cast<std::uint64_t>( v );
			}
			label[n] = what;
			lane[n] = ( lane[n] ^ x ) * 0x9E3779B97F4A7C15ULL;
			lane[n] ^= lane[n] >> 29U;
			lane[n] += 1U;
			++events;
		}
	};

#if defined( NDEBUG )
	inline constexpr bool deep = true;
#else
	inline constexpr bool deep = false;
#endif

	template<auto Prog, std::size_t N>
	inline constexpr std::array<Out, N> table = [] {
		std::array<Out, N> r{ };
		for( std::size_t n = 0; n < N; ++n ) {
			r[n] = Prog( n + 1 );
		}
		return r;
	}( );

	template<auto Prog, std::size_t N>
	void compare( vf::Case &c ) {
		std::size_t const n = c.idx % N;
		std::uint64_t seed = n + 1;
		asm volatile( "" : "+r"( seed ) : : "memory" );
		Out const at_run_time = Prog( seed );
		Out const &at_compile_time = table<Prog, N>[n];
		c.ctx( "program seed ", n + 1 );
		for( std::size_t k = 0; k < lanes; ++k ) {
			if( at_run_time.label[k] == nullptr and at_compile_time.label[k] == nullptr ) {
				continue;
			}
			VF_EQ( c, at_run_time.label[k] ? at_run_time.label[k] : at_compile_time.label[k], at_run_time.lane[k], at_compile_time.lane[k] );
			c.nontrivial( vf::mix( at_run_time.lane[k], k ) );
		}
		VF_EQ( c, "number of observations", at_run_time.events, at_compile_time.events );
		c.count( "observations compared", at_run_time.events );
	}
} // namespace cx

/// NQ seeds in the checked build, NT in the optimised one
#define CX_RUN( NAME, NQ, NT )                                       \
	VF_FAMILY( NAME, NQ, NT ) {                                      \
		cx::compare<&prog_##NAME, ( cx::deep ? NT : NQ )>( c );      \
	}                                                                \
	static_assert( true )
