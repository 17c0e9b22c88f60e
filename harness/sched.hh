// Systematic exploration of thread schedules.
//
// The code under test and the harness are compiled with the compiler's thread
// instrumentation, but linked with the runtime in sched.cc instead of the
// sanitizer's.  That runtime lets exactly one thread run at a time, decides at
// every synchronisation operation which thread continues, keeps vector clocks
// and reports two unordered conflicting accesses to the same byte.
//
// A scenario is a list of thread bodies.  Every schedule of a scenario runs in
// a fresh child process, so that all function-local statics are unset again.
#ifndef VERIF_SCHED_HH
#define VERIF_SCHED_HH

#include "mc.hh"

namespace sched
{
  constexpr int maxThreads = 4;

  // one decision that had more than one option
  struct Choice { int options, chosen; bool preemptive; };

  struct Run
  {
    std::string problem;            // empty: nothing wrong
    std::vector< Choice > choices;
    std::vector< std::uint64_t > states;
    std::uint64_t operations = 0, accesses = 0;
    std::string text;               // what the scenario itself reports
  };

  typedef std::function< void () > Body;
  // prepare() runs in the child before the threads start and returns their
  // bodies; judge() runs after they have ended and returns a complaint, or "".
  // A judgement of the form "=text" is an outcome, not a complaint.
  struct Scenario
  {
    std::string name;
    std::function< std::vector< Body > () > prepare;
    std::function< std::string () > judge;
  };

  // run one schedule in a child process
  Run execute ( const Scenario &s, const std::vector< int > &prefix );

  // explore all schedules with at most `bound` preemptions
  void explore ( mc::Explorer &ex, const Scenario &s, int bound );
}

#endif
