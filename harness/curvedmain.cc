#include "curvedcheck.hh"

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  mode = ex.param( "mode", "forward" );
  const std::string which = ex.param( "which", "both" );
  if( which != "elements" )
    exploreMapped( ex );
  if( which != "mapped" )
    exploreElements( ex );
  return ex.finish();
}
