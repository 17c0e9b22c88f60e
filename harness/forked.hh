// Run a function in a fresh child process and collect what it writes.
#ifndef VERIF_FORKED_HH
#define VERIF_FORKED_HH

#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include "mc.hh"

namespace forked
{
  struct Result { bool ok; std::string text; std::string how; };

  inline Result run ( const std::function< std::string () > &f, unsigned seconds = 60 )
  {
    int fd[ 2 ];
    if( pipe( fd ) != 0 )
      std::abort();
    std::fflush( stdout );
    std::fflush( stderr );
    const pid_t pid = fork();
    if( pid < 0 )
      std::abort();
    if( pid == 0 )
    {
      close( fd[ 0 ] );
      alarm( seconds );
      std::string s;
      try { s = f(); }
      catch( const std::exception &e ) { s = std::string( "EXCEPTION " ) + e.what(); }
      catch( ... ) { s = "EXCEPTION of unknown type"; }
      s += "\n.";
      std::size_t off = 0;
      while( off < s.size() )
      {
        const ssize_t n = write( fd[ 1 ], s.data()+off, s.size()-off );
        if( n <= 0 )
          break;
        off += n;
      }
      _exit( 0 );
    }
    close( fd[ 1 ] );
    Result r{ false, "", "" };
    char buf[ 4096 ];
    for( ;; )
    {
      const ssize_t n = read( fd[ 0 ], buf, sizeof buf );
      if( n <= 0 )
        break;
      r.text.append( buf, n );
    }
    close( fd[ 0 ] );
    int status = 0;
    waitpid( pid, &status, 0 );
    if( WIFSIGNALED( status ) )
      r.how = mc::str( "killed by signal %d", WTERMSIG( status ) );
    else if( r.text.size() < 2 || r.text.substr( r.text.size()-2 ) != "\n." )
      r.how = mc::str( "ended with status %d", WEXITSTATUS( status ) );
    else
    {
      r.ok = true;
      r.text.resize( r.text.size()-2 );
    }
    return r;
  }
}

#endif
