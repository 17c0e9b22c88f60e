// Dynamic-to-static dispatch and the topology factories.
#include <dune/geometry/typeindex.hh>
#include <dune/geometry/topologyfactory.hh>
#include "common.hh"

using Dune::GeometryType;
namespace GTs = Dune::GeometryTypes;

struct Obj { unsigned id; int dim; bool none; long key; };

static long created = 0, destroyed = 0;
struct Counted : Obj
{
  Counted ( Obj o ) : Obj( o ) { ++created; }
  ~Counted () { ++destroyed; }
};

// a topology given as a class
template< unsigned w, int dim >
struct Topology
{
  static const unsigned int id = w;
  static const int dimension = dim;
};

struct ObjFactory
{
  template< class T >
  static const Counted *createObject ( const long &key )
  {
    return new Counted( Obj{ T::id, T::dimension, false, key } );
  }
  template< GeometryType::Id id >
  static const Counted *createObject ( const long &key )
  {
    const GeometryType t = id;
    return new Counted( Obj{ t.id(), int( t.dim() ), t.isNone(), key } );
  }
};

template< int dim >
struct Traits
{
  static const unsigned int dimension = dim;
  typedef long Key;
  typedef const Counted Object;
  typedef ObjFactory Factory;
};

template< GeometryType::Id id >
struct Operation
{
  static Obj apply ( long key )
  {
    const GeometryType t = id;
    return Obj{ t.id(), int( t.dim() ), t.isNone(), key };
  }
};

template< int dim >
void explore ( mc::Explorer &ex, long &freshKey )
{
  typedef Dune::TopologyFactory< Traits< dim > > Factory;
  typedef Dune::TopologySingletonFactory< Factory > Singleton;

  for( unsigned w = 0; w < (1u << dim); ++w )
    ex.run( mc::str( "dispatch %u/%d", w, dim ), [ & ] {
        const GeometryType t( w, dim );
        int calls = 0;
        const Obj a = Dune::Impl::toGeometryTypeIdConstant< dim >( t, [ & ] ( auto id ) {
            ++calls;
            const GeometryType s = decltype( id )::value;
            return Obj{ s.id(), int( s.dim() ), s.isNone(), 0 };
          } );
        ex.expectf( a.dim == dim && !a.none && model::sameShape( a.id, w ), "static id selected for type %u/%d is %u/%d", w, dim, a.id, a.dim );
        ex.expectf( calls == 1, "%d calls for type %u/%d", calls, w, dim );
        const Obj b = Dune::Impl::IfGeometryType< Operation, dim >::apply( t, 7l );
        ex.expectf( b.dim == dim && !b.none && model::sameShape( b.id, w ) && b.key == 7, "operation instantiated for type %u/%d is %u/%d", w, dim, b.id, b.dim );
        ex.outcome( mc::str( "%u/%d", a.id, a.dim ) );
        for( long key : { 0l, 5l, -3l } )
        {
          const Counted *o = Factory::create( t, key );
          ex.expectf( o && o->dim == dim && model::sameShape( o->id, w ) && o->key == key, "factory object for type %u/%d, key %ld", w, dim, key );
          const Counted *p = Factory::create( t, key );
          ex.expect( p != o, "the plain factory creates a new object for every request" );
          const long d = destroyed;
          Factory::release( o );
          Factory::release( p );
          ex.expect( destroyed == d+2, "release destroys the object" );
        }
      } );

  // singleton factory: all request sequences
  std::vector< unsigned > words;
  for( unsigned w = 0; w < (1u << dim) && words.size() < 4; w += (dim > 0 ? 2 : 1) )
    words.push_back( (w * 3u) % (1u << dim) );
  if( dim >= 2 )
    words.back() = (1u << dim) - 1u;
  std::sort( words.begin(), words.end() );
  words.erase( std::unique( words.begin(), words.end() ), words.end() );
  struct Request { unsigned word; int key; int isStatic; };
  std::vector< Request > alphabet;
  for( unsigned w : words )
    for( int k = 0; k < 2; ++k )
      alphabet.push_back( { w, k, 0 } );
  alphabet.push_back( { GTs::cube( dim ).id(), 0, 1 } );
  alphabet.push_back( { 0u, 1, 1 } );
  typedef Topology< 0u, dim > Class;
  constexpr bool classes = requires { Singleton::template create< Class >( 0l ); };
  if( classes )
    alphabet.push_back( { 0u, 1, 2 } );
  const int depth = ex.thorough() ? 6 : 5;
  std::vector< int > seq;
  std::function< void() > rec = [ & ] {
    if( !seq.empty() )
    {
      std::string key = mc::str( "singleton dim=%d", dim );
      for( int a : seq )
        key += mc::str( " %u.%d%s", alphabet[ a ].word, alphabet[ a ].key, alphabet[ a ].isStatic == 0 ? "" : (alphabet[ a ].isStatic == 1 ? "s" : "c") );
      ex.run( key, [ & ] {
          const long base = freshKey;
          freshKey += 2;
          std::map< std::pair< unsigned, int >, const Counted * > model;
          const long c0 = created, d0 = destroyed;
          for( int a : seq )
          {
            const Request &r = alphabet[ a ];
            const Counted *o = nullptr;
            if( !r.isStatic )
              o = Singleton::create( GeometryType( r.word, dim ), base + r.key );
            else if( r.isStatic == 2 )
            {
              if constexpr( classes )
                o = Singleton::template create< Class >( base + r.key );
            }
            else if( r.key == 0 )
              o = Singleton::template create< GTs::cube( dim ).toId() >( base + r.key );
            else
              o = Singleton::template create< GTs::simplex( dim ).toId() >( base + r.key );
            ex.expectf( o && o->dim == dim && model::sameShape( o->id, r.word ) && o->key == base + r.key, "object for type %u, key %d", r.word, r.key );
            auto &slot = model[ { r.word, r.key } ];
            ex.expectf( !slot || slot == o, "a repeated request for type %u, key %d returned another object", r.word, r.key );
            slot = o;
            Singleton::release( o );
            ex.state( key + mc::str( "|%zu", model.size() ) );
          }
          std::set< const Counted * > distinct;
          for( auto &m : model )
          {
            distinct.insert( m.second );
            ex.expectf( m.second->key == base + m.first.second && model::sameShape( m.second->id, m.first.first ), "object for type %u, key %d changed later", m.first.first, m.first.second );
          }
          ex.expect( distinct.size() == model.size(), "different requests share an object" );
          ex.expectf( created - c0 == long( model.size() ) && destroyed == d0, "created %ld objects for %zu distinct requests", created - c0, model.size() );
          ex.outcome( mc::str( "%zu objects", model.size() ) );
        } );
    }
    if( int( seq.size() ) == depth )
      return;
    for( std::size_t a = 0; a < alphabet.size(); ++a )
    {
      seq.push_back( int( a ) );
      rec();
      seq.pop_back();
    }
  };
  rec();
}

int main ( int argc, char **argv )
{
  mc::Explorer ex( argc, argv );
  long freshKey = 1000;
  staticFor< 6 >( [ & ] ( auto d ) { explore< d >( ex, freshKey ); } );
  return ex.finish();
}
