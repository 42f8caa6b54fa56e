// second translation unit of the C37 monitor: the headers must link when more
// than one unit of a program includes them
#include <limits>
#include <memory>
#include <random>
#include <daw/daw_format_range.h>
#include <daw/daw_formatters.h>
#include <daw/daw_print.h>
#include <daw/daw_print_ostream.h>
#include <daw/daw_uint_buffer_ios.h>
#include <sstream>
#include <string>
#include <vector>

std::string second_unit_format( std::vector<int> const &v, daw::UInt16 u ) {
	std::ostringstream o;
	daw::print( o, "{:+}", daw::fmt_range( v ) );
	o << u;
	return o.str( );
}
