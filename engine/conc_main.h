// Command line driver shared by the concurrency harnesses.
#pragma once
#include <cstdlib>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include "engine.h"

namespace mc {

struct Config
{
    std::string    property;
    std::string    name;
    int            quick_bound;
    int            thorough_bound;
    std::function<void()> body;
    int            fail_create_at=-1;
    int            nr_shards=1;
    bool           delay_bounded=false;
    long           max_steps=20000;
};

// --list PROPERTY: names of configurations, one per line
// --run NAME --bound B --seconds S --shard I/N --report FILE
// --run NAME --replay FILE --report FILE
inline int conc_main(int argc, char** argv, std::vector<Config> const& configs)
{
    std::string run, list, replay, report;
    int bound = 2, shard = 0, nr_shards = 1;
    double seconds = 60;
    for(int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], b = argv[i + 1];
        if(a == "--list") list = b;
        else if(a == "--run") run = b;
        else if(a == "--bound") bound = std::atoi(b.c_str());
        else if(a == "--seconds") seconds = std::atof(b.c_str());
        else if(a == "--shard") { shard = std::atoi(b.c_str()); nr_shards = std::atoi(b.substr(b.find('/') + 1).c_str()); }
        else if(a == "--replay") replay = b;
        else if(a == "--report") report = b;
    }
    if(!list.empty()) {
        for(auto const& c: configs) if(c.property == list)
            std::cout << c.name << ' ' << c.quick_bound << ' ' << c.thorough_bound << ' ' << c.nr_shards << '\n';
        return 0;
    }
    for(auto const& c: configs) if(c.name == run) {
        Options o;
        o.max_dev = bound; o.max_seconds = seconds; o.shard = shard; o.nr_shards = nr_shards;
        o.fail_create_at = c.fail_create_at;
        o.delay_bounded = c.delay_bounded; o.max_steps = c.max_steps;
        if(!replay.empty()) set_replay(replay);
        set_report(report);
        auto s = explore(c.name, c.body, o);
        std::cout << "{\"config\":\"" << s.name << "\",\"executions\":" << s.executions
            << ",\"pruned\":" << s.pruned << ",\"states\":" << s.states
            << ",\"transitions\":" << s.transitions << ",\"decisions\":" << s.decisions
            << ",\"bound\":" << s.bound_completed << ",\"exhausted\":" << (s.exhausted ? "true" : "false")
            << ",\"capped\":" << (s.capped ? "true" : "false") << ",\"threads\":" << s.max_threads
            << ",\"outcomes\":" << s.outcomes.size() << ",\"wall\":" << s.wall << "}" << std::endl;
        return 0;
    }
    std::cerr << "no such configuration\n";
    return 2;
}

} // namespace mc
