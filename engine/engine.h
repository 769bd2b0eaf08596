// Stateless model checker for real threads: public interface.
//
// The program under test (repository sources + harness) is compiled with
// -fsanitize=thread, but linked against this runtime instead of libtsan. The
// runtime owns the schedule: exactly one thread runs at a time, and at every
// synchronisation operation the explorer decides who runs next.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Options
{
    int            max_dev=2;          // preemptions + early timeouts + spurious wakeups
    int            max_spurious=1;     // spurious wakeups per execution
    int            fail_create_at=-1;  // index of the pthread_create that returns EAGAIN
    long           max_steps=20000;
    int            max_idle_timeouts=60;
    double         max_seconds=60;
    bool           delay_bounded=false; // every choice other than the default one is a deviation
    int            shard=0;
    int            nr_shards=1;
};

struct Stats
{
    std::string    name;
    long           executions=0;       // complete executions of the real code
    long           pruned=0;           // executions cut at an already explored state
    long           states=0;           // distinct happens-before states at decisions
    long           transitions=0;      // synchronisation steps executed
    long           decisions=0;        // decision points with more than one choice
    int            bound_completed=-1; // highest deviation bound completed
    bool           exhausted=false;    // no alternatives were cut by the bound
    bool           capped=false;       // time cap hit before max_dev was completed
    long           max_threads=0;
    std::vector<std::string> outcomes;
    double         wall=0;
};

// Explore all schedules of body, within options' bounds, iterating the bound.
Stats              explore             (std::string const& name,
                                        std::function<void()> const& body,
                                        Options const& options);

// For use in bodies.
void               fail                (std::string const& message);
void               outcome             (std::string const& text);
bool               active              ();
int                self                ();

inline void check(bool condition, std::string const& message)
{
    if(!condition) {
        fail(message);
    }
}

// Replaying.
void               set_replay          (std::string const& path);
void               set_report          (std::string const& path);

} // namespace mc
